/* Stands in for the C library's header when the assertion build is compiled for comparison: the code after a failing assertion is kept. */
#undef assert
#ifdef NDEBUG
#define assert(e) ((void) 0)
#else
void vp_assert_failed(void);
#define assert(e) ((e) ? (void) 0 : vp_assert_failed())
#endif
