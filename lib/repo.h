/* Include before the first source file of /repo: prepares for including .c files */
#ifdef VP_MEMHOOK
#define malloc vp_malloc
#define realloc vp_realloc
#define free vp_free
#endif
#include "libmseed.h"
#ifdef VP_STUB_LOG
int
ms_rlog (const char *function, int level, const char *format, ...)
{
  (void)function; (void)level; (void)format;
  return 0;
}
#endif
#ifdef VP_CBMC
/* ctype.h of the C locale */
#undef isdigit
#undef isalpha
#undef isalnum
#undef isupper
#undef islower
#undef isspace
#undef isprint
#undef toupper
#undef tolower
#define isdigit(c) ((unsigned)(c) - '0' < 10u)
#define isupper(c) ((unsigned)(c) - 'A' < 26u)
#define islower(c) ((unsigned)(c) - 'a' < 26u)
#define isalpha(c) (isupper (c) || islower (c))
#define isalnum(c) (isalpha (c) || isdigit (c))
#define isspace(c) ((c) == ' ' || (unsigned)(c) - 9 < 5u)
#define isprint(c) ((unsigned)(c) - 32 < 95u)
#define toupper(c) (islower (c) ? (c) - 32 : (c))
#define tolower(c) (isupper (c) ? (c) + 32 : (c))
#endif
