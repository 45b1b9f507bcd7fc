#define BRSKI_VERSION "7.8.9"
#define BRSKI_VERSION_MAJOR 7
#define BRSKI_VERSION_MINOR 8
#define BRSKI_VERSION_PATCH 9
#define BRSKI_VERSION_PRERELEASE ""
#define BRSKI_VERSION_BUILD_IDENTIFIER ""
