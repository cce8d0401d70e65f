RMF = "RoadManager/RoadManager.cpp"
CMF = "CommonMini/CommonMini.cpp"
S = "ScenarioEngine/SourceFiles/"
O = "ScenarioEngine/OSCTypeDefs/"
PA = O + "OSCPrivateAction.cpp"
TARGETS = {
    "C01": [(CMF, ["GetAngleOfVector", "GetAbsAngleDifference", "GetAngleDifference", "IsAngleForward", "GetAngleSum", "GetAngleInInterval2PI", "GetAngleInIntervalMinusPIPlusPI", "GetSignedAngleBetweenVectors"])],
    "C02": [(CMF, ["GetIntersectionOfTwoLineSegments", "GetIntersectionsOfLineAndCircle", "PointInBetweenVectorEndpoints", "DistanceFromPointToEdge2D", "DistanceFromPointToLine2D", "PointSideOfVec", "PointToLineDistance2DSigned", "ProjectPointOnLine2D", "ProjectPointOnVector2D", "IsPointWithinSectorBetweenTwoLines", "Global2LocalCoordinates", "Local2GlobalCoordinates", "R0R12EulerAngles", "ZYZ2EulerAngles", "CalcRelAnglesFromRoadAndAbsAngles", "RotateVec3d", "InverseRotateVec3d", "OffsetVec2D"])],
    "C03": [(RMF, ["Line::EvaluateDS", "Arc::EvaluateDS", "Arc::GetRadius", "Spiral::EvaluateDS", "Spiral::Spiral", "Spiral::EvaluateCurvatureDS", "Poly3::EvaluateDSLocal", "Poly3::EvaluateDS", "Poly3::EvaluateCurvatureDS", "ParamPoly3::EvaluateDS", "ParamPoly3::EvaluateCurvatureDS", "ParamPoly3::calcS2PMap", "ParamPoly3::S2P", "Polynomial::Evaluate", "Polynomial::EvaluatePrim", "Polynomial::EvaluatePrimPrim"])],
    "C04": [(RMF, ["Lane::GetWidthByS", "Lane::GetHeightBySAndOffset", "Road::GetLaneSectionIdxByS", "Road::GetLaneWidthByS", "Road::GetSpeedByS", "Road::GetRoadTypeByS", "LaneSection::GetWidth", "LaneSection::GetOuterOffset", "LaneSection::GetInnerOffset", "LaneSection::GetCenterOffset", "LaneSection::GetWidthBetweenLanes", "LaneSection::GetOffsetBetweenLanes", "Road::GetLaneOffset", "Road::GetLaneOffsetPrim", "Road::GetWidth", "Road::GetZAndPitchByS", "Road::UpdateRollByS", "Road::AddLaneSection", "LaneSection::AddLane", "Road::GetLaneInfoByS"])],
    "C05": [(RMF, ["Position::Track2Lane", "Position::XYZ2TrackPos", "Position::EvaluateRoadCenterlineZHPR", "Position::EvaluateLaneHeight", "Position::Track2XYZ", "Position::Lane2Track", "Position::SetTrackPosMode", "Position::SetLanePosMode", "Position::SetInertiaPosMode", "Position::SetHeading", "Position::SetHeadingRelative", "Position::EvaluateHPR", "LaneSection::GetClosestLaneIdx", "Position::SetLongitudinalTrackPos"])],
    "C06": [(RMF, ["Position::MoveToConnectingRoad", "Position::MoveAlongS", "Position::DistanceToDS", "LaneSection::GetConnectingLaneId", "Road::GetConnectingLaneId", "Junction::GetRoadConnectionByIdx", "Position::GotoClosestDrivingLaneAtCurrentPosition", "Road::GetConnectedLaneIdAtS", "Junction::GetRoadAtOtherEndOfConnectingRoad"])],
    "C07": [(RMF, ["RoadPath::Calculate", "RoadPath::CheckRoad", "Position::Delta", "Position::Distance", "Position::getRelativeDistance"])],
    "C08": [(PA, ["FollowTrajectoryAction::Start", "FollowTrajectoryAction::Step", "FollowTrajectoryAction::Move"]), (RMF, ["PolyLineBase::EvaluateSegmentByLocalS", "PolyLineBase::Evaluate", "PolyLineBase::Time2S", "PolyLineBase::FindClosestPoint", "PolyLineBase::FindPointAhead", "PolyLineBase::FindPointAtTime", "PolyLineShape::CalculatePolyLine", "ClothoidShape::CalculatePolyLine", "ClothoidShape::EvaluateInternal", "Position::SetTrajectoryPosByTime", "Position::SetTrajectoryS", "Position::MoveTrajectoryDS"])],
    "C10": [(S + "StoryboardElement.cpp", [".*::UpdateState", ".*::Step", ".*::Start", ".*::End", ".*::Stop", ".*::Reset"]), (S + "Storyboard.cpp", ["Event::.*", "Maneuver::.*", "Act::.*", "ManeuverGroup::.*", "Story::.*", "StoryBoard::.*"])],
    "C11": [(O + "OSCCondition.cpp", ["OSCCondition::Evaluate", "OSCCondition::CheckEdge", "ConditionGroup::Evaluate", "Trigger::Evaluate", "EvaluateRule", "TrigBySimulationTime::CheckCondition", "TrigByVariable::CheckCondition", "TrigByParameter::CheckCondition", "ConditionDelay::.*"])],
    "C12": [(O + "OSCCondition.cpp", ["TrigByEntity::.*", "TrigBySpeed::CheckCondition", "TrigByRelativeSpeed::CheckCondition", "TrigByAcceleration::CheckCondition", "TrigByTraveledDistance::CheckCondition", "TrigByReachPosition::CheckCondition", "TrigByDistance::CheckCondition", "TrigByRelativeDistance::CheckCondition", "TrigByTimeHeadway::CheckCondition", "TrigByTimeToCollision::CheckCondition", "TrigByCollision::CheckCondition", "TrigByStandStill::CheckCondition", "TrigByEndOfRoad::CheckCondition", "TrigByOffRoad::CheckCondition", "TrigByAngle::CheckCondition", "TrigByRelativeAngle::CheckCondition", "TrigByRelativeClearance::CheckCondition"]), (S + "Entities.cpp", ["Object::TimeHeadway", "Object::TimeToCollision"])],
    "C13": [(PA, ["LongSpeedAction::Start", "LongSpeedAction::Step", "LongSpeedAction::TargetRelative::GetValue", "OSCPrivateAction::TransitionDynamics::.*"])],
    "C14": [(PA, ["LongSpeedProfileAction::.*", "LongDistanceAction::Start", "LongDistanceAction::Step"])],
    "C15": [(PA, ["LatLaneChangeAction::Start", "LatLaneChangeAction::Step", "LatLaneOffsetAction::Start", "LatLaneOffsetAction::Step", "LatDistanceAction::.*"])],
    "C20": [(S + "Entities.cpp", ["Object::CollisionAndRelativeDistLatLong", "Object::PointCollision", "Object::FreeSpaceDistance", "Object::FreeSpaceDistancePoint", "Object::FreeSpaceDistanceObjectRoadLane", "Object::Distance", "Object::OverlappingFront", "Vehicle::ConnectTrailer", "Vehicle::AlignTrailers"]), (S + "ScenarioEngine.cpp", ["ScenarioEngine::DetectCollisions"])],
    "C16": [(PA, ["SynchronizeAction::Step", "SynchronizeAction::Start", "SynchronizeAction::CalcSpeedForLinearProfile"])],
    "C09": [(RMF, ["Route::.*", "Position::SetRoute.*", "Position::CalcRoutePosition", "Position::MoveRouteDS", "Position::GetRouteLaneId"]), ("RoadManager/LaneIndependentRouter.cpp", ["LaneIndependentRouter::.*"]), (PA, ["AssignRouteAction::.*"])],
    "C17": [("Controllers/vehicle.cpp", ["Vehicle::.*"])],
    "C18": [("Controllers/ControllerACC.cpp", ["ControllerACC::Step", "ControllerACC::Activate"]), ("Controllers/ControllerNaturalDriver.cpp", ["ControllerNaturalDriver::.*"]), ("Controllers/ControllerECE_ALKS_RefDriver.cpp", ["ControllerECE_ALKS_REF_DRIVER::Step"]), ("Controllers/Controller.cpp", ["Controller::Activate", "Controller::DeactivateDomains"]), (PA, ["ActivateControllerAction::Start"])],
    "C19": [(S + "Parameters.cpp", ["Parameters::.*"]), (O + "OSCGlobalAction.cpp", ["ParameterSetAction::.*", "VariableSetAction::.*", "VariableAddAction::.*", "VariableMultiplyByAction::.*"])],
    "C21": [("../Libraries/esminiRMLib/esminiRMLib.cpp", ["RM_.*", "GetRoadLaneInfo", "GetProbeInfo"])],
    "C22": [("../Libraries/esminiLib/esminiLib.cpp", ["SE_Get.*", "SE_Report.*", "SE_Add.*", "SE_Delete.*", "getObjectState.*", "GetRoadInfo.*", "copyStateFromScenarioGateway", "reportObject.*"]), (S + "ScenarioGateway.cpp", ["ScenarioGateway::.*"])],
    "C23": [(S + "ScenarioEngine.cpp", ["ScenarioEngine::prepareGroundTruth"])],
    "C24": [(S + "IdealSensor.cpp", ["ObjectSensor::.*"])],
}
