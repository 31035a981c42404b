// In place of the version.cc which the build makes.
#include "version.h"
char const * dcp::git_commit = "simulated";
char const * dcp::version = "1.0.0";
bool const dcp::built_with_debug = false;
