#ifndef CERES_EXPORT_H
#define CERES_EXPORT_H
#define CERES_EXPORT
#define CERES_NO_EXPORT
#define CERES_DEPRECATED __attribute__((__deprecated__))
#define CERES_DEPRECATED_EXPORT
#define CERES_DEPRECATED_NO_EXPORT
#endif
