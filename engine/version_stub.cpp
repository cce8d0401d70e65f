// stand-in for the generated version.cpp (git metadata only)
extern const char* ESMINI_GIT_REV;
extern const char* ESMINI_GIT_TAG;
extern const char* ESMINI_GIT_BRANCH;
extern const char* ESMINI_BUILD_VERSION;
const char* ESMINI_GIT_REV       = "vf";
const char* ESMINI_GIT_TAG       = "vf";
const char* ESMINI_GIT_BRANCH    = "vf";
const char* ESMINI_BUILD_VERSION = "vf";
