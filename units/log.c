/*UNIT
{"mode": "complete", "unwind": 202, "timeout": 300, "functions": ["rlog_int"], "search": 15,
 "stubs": {"add_message_int": "stub_add", "print_message_int": "stub_print", "vsnprintf": "stub_vsnprintf", "strncpy": "stub_strncpy"},
 "proved_elsewhere": ["add_message_int", "print_message_int"]}
*/
/* Contract of rlog_int(): for every level, prefix, formatted length and content the message buffer
 * is not overrun, the message passed on is terminated, and goes to the registry exactly for
 * warnings and errors when a registry is configured, without its trailing newline. */
#define VP_KEEP_LOG
#include "vp.h"
#include "repo.h"
#include "logging.c"
#undef malloc
#undef free
static int g_n, g_pre, g_added, g_printed, g_level, g_nl, g_len;
static const char *g_func;
static char g_got[MAX_LOG_MSG_LENGTH];
#ifdef VP_CBMC
static int
terminated (const char *m)
{
  for (int i = 0; i < MAX_LOG_MSG_LENGTH; i++)
    if (!m[i])
      return i;
  return -1;
}
int
stub_add (MSLogRegistry *logreg, const char *function, int level, const char *message)
{
  g_added++;
  g_len = terminated (message);
  VP_ASSERT (g_len >= 0, "message of the registry terminated within its buffer");
  VP_ASSERT (level == g_level && function == g_func, "level and function of the message");
  return 0;
}
void
stub_print (MSLogParam *logp, int level, const char *message, char *terminator)
{
  g_printed++;
  VP_ASSERT (terminated (message) >= 0, "message printed terminated within its buffer");
  VP_ASSERT (level == g_level, "level of the message");
}
/* at most n bytes are written, the last a terminator; any result */
int
stub_vsnprintf (char *s, size_t n, const char *format, va_list ap)
{
  size_t k;
  VP_ASSERT (n > 0 && n <= MAX_LOG_MSG_LENGTH && __CPROVER_w_ok (s, n), "formatted within the message buffer");
  __CPROVER_assume (k < n);
  __CPROVER_havoc_slice (s, n);
  s[k] = 0;
  g_nl = k > 0 && s[k - 1] == '\n';
  return g_n;
}
/* n bytes are written, terminated since every source (a prefix of fewer than 200 bytes, "Error: ") is shorter */
char *
stub_strncpy (char *d, const char *s, size_t n)
{
  VP_ASSERT (n <= MAX_LOG_MSG_LENGTH && __CPROVER_w_ok (d, n), "prefix copied within the message buffer");
  size_t k;
  __CPROVER_assume (k < n);
  __CPROVER_havoc_slice (d, n);
  d[k] = 0;
  return d;
}
#endif
static int
call (MSLogParam *p, const char *f, int level, const char *format, ...)
{
  va_list ap;
  va_start (ap, format);
  int r = rlog_int (p, f, level, format, &ap);
  va_end (ap);
  return r;
}
#ifdef VP_NATIVE
static void
keep (const char *m)
{
  VP_ASSERT (strlen (m) < MAX_LOG_MSG_LENGTH, "message printed terminated within its buffer");
  strcpy (g_got, m);
  g_printed++;
}
#endif
void
harness (void)
{
  static MSLogParam p;
  int level = (int)vp_i (-2, 4), pre = (int)vp_u (0, 2);
  char *prefix = vp_alloc (MAX_LOG_MSG_LENGTH), *text = vp_alloc (500);
  g_level = level;
  g_func = "f";
  g_added = g_printed = 0;
#ifdef VP_CBMC
  g_n = (int)vp_i (-1, 1 << 20);
#else
  int pl = (int)vp_u (0, MAX_LOG_MSG_LENGTH - 1), n = (int)vp_u (0, 450);
  memset (prefix, 'p', pl), prefix[pl] = 0;
  memset (text, 'x', n), text[n] = 0;
  if (n && vp_bool ())
    text[n - 1] = '\n';
  memset (&p, 0, sizeof p);
  p.log_print = p.diag_print = keep;
#endif
  p.logprefix = pre & 1 ? prefix : NULL, p.errprefix = pre & 2 ? prefix : NULL;
  p.registry.maxmessages = (int)vp_i (-1, 100);
  int reg = level >= 1 && p.registry.maxmessages > 0;
  int r = call (&p, "f", level, "%s", text);
#ifdef VP_CBMC
  VP_ASSERT (g_added == reg && g_printed == !reg, "registry for warnings and errors, else printed");
  VP_ASSERT (VP_IMP (level < 0, r == 0), "no output for unknown levels");
  if (g_added && g_n > 300)
    VP_REACH ("end");
#else
  char exp[1000] = "";
  if (level >= 2)
    strcpy (exp, pre & 2 ? prefix : "Error: ");
  else if (level >= 0 && pre & 1)
    strcpy (exp, prefix);
  if (level >= 0)
    strcat (exp, text);
  exp[MAX_LOG_MSG_LENGTH - 1] = 0;
  int l = (int)strlen (exp);
  if (reg)
  {
    if (l && exp[l - 1] == '\n')
      exp[l - 1] = 0;
    VP_ASSERT (p.registry.messagecnt == 1 && p.registry.messages && !strcmp (p.registry.messages->message, exp), "message of the registry");
    ms_rlog_free (&p);
  }
  else if (level >= 0)
    VP_ASSERT (g_printed == 1 && !strcmp (g_got, exp), "message printed");
#endif
}
