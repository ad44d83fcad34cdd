// The generated version information of the library's build.
extern "C" {
extern const char* GIT_TAG;
extern const char* GIT_REV;
extern const char* GIT_BRANCH;
const char* GIT_TAG = "tag";
const char* GIT_REV = "revision";
const char* GIT_BRANCH = "branch";
}
