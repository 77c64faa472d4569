#ifndef CORO_EXPORT_H
#define CORO_EXPORT_H
#define CORO_EXPORT
#define CORO_NO_EXPORT
#define CORO_DEPRECATED __attribute__((__deprecated__))
#define CORO_DEPRECATED_EXPORT CORO_EXPORT CORO_DEPRECATED
#define CORO_DEPRECATED_NO_EXPORT CORO_NO_EXPORT CORO_DEPRECATED
#endif
