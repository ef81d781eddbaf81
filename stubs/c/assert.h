#undef assert
#ifdef NDEBUG
#define assert(x) ((void)0)
#else
_Noreturn void abort(void);
#define assert(x) ((x) ? (void)0 : abort())
#endif
