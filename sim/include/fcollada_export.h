#ifndef FCOLLADA_EXPORT_H
#define FCOLLADA_EXPORT_H
#define FCOLLADA_EXPORT
#define FCOLLADA_NO_EXPORT
#define FCOLLADA_DEPRECATED
#define FCOLLADA_DEPRECATED_EXPORT
#define FCOLLADA_DEPRECATED_NO_EXPORT
#endif
