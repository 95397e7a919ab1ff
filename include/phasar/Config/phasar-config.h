// Configuration header used by the verification build (replaces the one cmake
// generates from /repo/config.h.in).  DYNAMIC_LOG is off: logging statements
// are compiled out, exactly as in a phasar build without logging.
#ifndef PHASAR_CONFIG_CONFIG_H
#define PHASAR_CONFIG_CONFIG_H
#define PHASAR_CONFIG_DIR ".phasar-config/"
#define BUILD_PHASAR_CLANG
#define PHASAR_HAS_SQLITE
#endif
