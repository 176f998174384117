/*UNIT
{"mode": "runtime", "search": 15, "procs": 2, "functions": ["ms_rlog_l", "ms_rloginit_l", "add_message_int", "print_message_int", "ms_rlog_emit", "ms_rlog_free"],
 "note": "histories of up to 40 calls, registry limits 0 to 6, messages to 260 bytes"}
*/
/* Contract of the message registry against a model: the most recent messages within the limit. */
#define VP_KEEP_LOG
#include "vp.h"
#include "repo.h"
static char got[200][MAX_LOG_MSG_LENGTH];
static int ngot;
static void
keep (const char *m)
{
  VP_ASSERT (strnlen (m, MAX_LOG_MSG_LENGTH) < MAX_LOG_MSG_LENGTH, "message terminated within its buffer");
  if (ngot < 200)
    strcpy (got[ngot++], m);
}
typedef struct { char f[30], m[MAX_LOG_MSG_LENGTH]; } ent;
void
harness (void)
{
  MSLogParam *p = ms_rloginit_l (NULL, keep, NULL, keep, "", (int)vp_u (0, 6));
  static ent q[64];
  int n = 0, max = p->registry.maxmessages, ops = (int)vp_u (0, 40);
  for (int o = 0; o < ops; o++)
  {
    int k = (int)vp_u (0, 9);
    if (k < 7)
    {
      int level = (int)vp_u (0, 3), l = vp_bool () ? (int)vp_u (0, 260) : (int)vp_u (0, 12), fl = (int)vp_u (0, 40);
      char t[300], f[50];
      memset (t, 'a' + o % 26, l), t[l] = 0;
      if (l && vp_bool ())
        t[l - 1] = '\n';
      memset (f, 'f', fl), f[fl] = 0;
      ngot = 0;
      int nofunc = vp_u (0, 3) == 1;
      ms_rlog_l (p, nofunc ? NULL : f, level, "%s", t);
      t[MAX_LOG_MSG_LENGTH - 1] = 0;
      f[29] = 0;
      l = (int)strlen (t);
      if (level >= 1 && max > 0)
      {
        VP_ASSERT (ngot == 0, "message kept, not printed");
        if (l && t[l - 1] == '\n')
          t[l - 1] = 0;
        if (n == 64 || n >= max)
          memmove (q, q + 1, (n - 1) * sizeof *q), n--;
        strcpy (q[n].m, t);
        strcpy (q[n++].f, nofunc ? "" : f);
        while (n > max)
          memmove (q, q + 1, --n * sizeof *q);
      }
      else
        VP_ASSERT (ngot == 1 && !strcmp (got[0], t), "message printed");
    }
    else if (k == 7)
    {
      int c = (int)vp_u (0, 8), ctx = vp_bool (), e = c == 0 || c > n ? n : c;
      ngot = 0;
      int r = ms_rlog_emit (p, c, ctx);
      VP_ASSERT (r == e && ngot == e, "messages emitted");
      for (int i = 0; i < e; i++)
      {
        ent *x = &q[n - e + i];
        char want[MAX_LOG_MSG_LENGTH + 60];
        if (ctx && x->f[0])
          snprintf (want, sizeof want, "%s() %.167s", x->f, x->m);
        else
          strcpy (want, x->m);
        VP_ASSERT (!strncmp (got[i], want, 190) && (strlen (want) > 190 || !strcmp (got[i], want)), "most recent messages in order");
      }
      n -= e;
    }
    else if (k == 8)
    {
      VP_ASSERT (ms_rlog_free (p) == n, "messages freed");
      n = 0;
    }
    else
    {
      max = (int)vp_u (0, 6);
      ms_rloginit_l (p, NULL, NULL, NULL, NULL, max);
    }
    int cnt = 0, lim = max > n ? max : n;
    for (MSLogEntry *e = p->registry.messages; e; e = e->next, cnt++)
      VP_ASSERT (cnt < n && !strcmp (e->message, q[n - 1 - cnt].m) && !strcmp (e->function, q[n - 1 - cnt].f), "the registry holds the most recent messages");
    VP_ASSERT (cnt == n && p->registry.messagecnt == n && cnt <= lim, "number of messages");
  }
  ms_rlog_free (p);
  free (p);
}
