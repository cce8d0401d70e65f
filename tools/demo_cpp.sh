#!/bin/bash
# builds demo.cpp against the libraries in /repo's build and runs it in a scratch directory
d=$(cd "$(dirname "$0")" && pwd); R=$PWD; w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
S=$R/EnvironmentSimulator; B=$R/build/EnvironmentSimulator/Modules
I="-I$S/Modules/CommonMini -I$S/Modules/RoadManager -I$S/Modules/Controllers -I$S/Modules/ScenarioEngine/SourceFiles -I$S/Modules/ScenarioEngine/OSCTypeDefs -I$S/Modules/PlayerBase -I$S/Libraries/esminiLib -I$R/externals/pugixml -I$R/externals/expr -I$R/externals/yaml"
g++ -std=c++17 -w -O1 -DFMT_SHARED -D_USE_GTEST $I "$d/demo.cpp" -o "$w/demo" -L$R/bin -lesminiLib -Wl,-rpath,$R/bin \
  $B/ScenarioEngine/libScenarioEngine.a $B/Controllers/libControllers.a $B/ScenarioEngine/libScenarioEngine.a $B/RoadManager/libRoadManager.a $B/RoadManager/libpugixml_lib.a $B/CommonMini/libCommonMini.a -lfmt -lpthread -ldl || exit 99
cd "$w" && timeout 120 ./demo
