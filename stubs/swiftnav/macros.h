#ifndef VP_SWIFT_MACROS_H
#define VP_SWIFT_MACROS_H
#define SWIFT_ATTR_FORMAT(fmt, args) __attribute__((format(printf, fmt, args)))
#define ARRAY_SIZE(a) (sizeof(a) / sizeof((a)[0]))
#ifndef MAX
#define MAX(a, b) ((a) > (b) ? (a) : (b))
#define MIN(a, b) ((a) < (b) ? (a) : (b))
#endif
#endif
#ifndef SWIFT_ATTR_PACKED
#define SWIFT_ATTR_PACKED __attribute__((packed))
#define SWIFT_ATTR_UNUSED __attribute__((unused))
#define SWIFT_ATTR_WARN_UNUSED_RESULT
#endif
