/*UNIT
{"mode": "runtime", "search": 10, "procs": 2, "functions": ["ms_readleapsecondfile"], "note": "generated files of up to 40 lines"}
*/
/* Contract of ms_readleapsecondfile(): the list holds exactly the entries of the file, in order. */
#include "vp.h"
#include <unistd.h>
#include "repo.h"
void
harness (void)
{
  char name[] = "/tmp/vp_leap_XXXXXX";
  int fd = mkstemp (name), n = (int)vp_u (0, 40), k = 0;
  int64_t sec[40];
  int tai[40];
  FILE *f = fdopen (fd, "w");
  for (int i = 0; i < n; i++)
    switch (vp_u (0, 5))
    {
    case 0: fprintf (f, "# comment %d\n", i); break;
    case 1: fprintf (f, "\n"); break;
    case 2: fprintf (f, "#@\t%lld\n", 3900000000ll + i); break;
    default:
      sec[k] = vp_i (1, 5000000000ll), tai[k] = (int)vp_u (0, 99);
      fprintf (f, "%lld %s%d%s\n", (long long)sec[k], vp_bool () ? "\t" : "", tai[k], vp_bool () ? " # 1 Jan" : "");
      k++;
    }
  fclose (f);
  int r = ms_readleapsecondfile (name);
  unlink (name);
  VP_ASSERT (r == k, "entries counted");
  LeapSecond *l = leapsecondlist;
  for (int i = 0; i < k; i++, l = l->next)
    VP_ASSERT (l && l->leapsecond == (sec[i] - 2208988800ll) * 1000000000 && l->TAIdelta == tai[i], "entry of the file");
  VP_ASSERT (!l, "no other entries");
}
