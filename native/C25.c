/* C25: any combination of batteries in a scratch directory. */
#include "vpn.h"
#include "redir.h"
#include "power.h"
#include "common.h"
static void one_case (void)
{
  static const char *st[] = { "Discharging", "Charging", "Full", "Not charging", "Unknown", "discharging", "Discharging!", "Dis charging", "", "Discharg", "Not Discharging", "Discharging\nDischarging", "DischargingX" };
  static const char *ws[] = { "", "\n", " ", "\t\n", "\r\n", "  \n\n", "\f " };
  int want = 0; mkdir ("power", 0700);
  for (int i = 0; i < 12; i++) {
    char p[64], t[600]; sprintf (p, "power/BAT%d", i); mkdir (p, 0700); strcat (p, "/status"); unlink (p); rmdir (p);
    if (chance (55)) continue;
    if (chance (10)) { mkdir (p, 0700); note (" %d:unreadable", i); continue; }
    int k = chance (20) ? 0 : rnd (13); sprintf (t, "%s%s%s", ws[rnd (7)], st[k], ws[rnd (7)]); rd_put (p, t, strlen (t)); note (" %d:%s", i, st[k]);
    if (k == 0 && i < 10) want = 1;
  }
  int o = rd_open; gboolean r = preload_on_battery ();
  EXPECT ((r != 0) == want, "on battery iff one of the batteries 0 to 9 is discharging");
  EXPECT (rd_open == o, "every file opened is closed"); EXPECT (!rd_outside, "nothing else is looked at");
}
