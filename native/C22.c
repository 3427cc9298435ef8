/* C22: memory reports of any content in a scratch directory. */
#include "vpn.h"
#include "redir.h"
#include "common.h"
#include "proc.h"
static char text[20000]; static size_t len;
static void put (const char *f, ...) { va_list a; va_start (a, f); int n = vsnprintf (text + len, sizeof text - len, f, a); va_end (a); if (n > 0) len += n; if (len >= sizeof text) len = sizeof text - 1; }
/* what the report says: the number behind the first occurrence of the name */
static int says (const char *name, int *v)
{
  size_t l = strlen (name); *v = 0;
  for (char *p = text; (p = strstr (p, name)); p++) { if (p[l] != ' ') continue; char *q = p + l; while (*q == ' ' || *q == '\t' || *q == '\n') q++; int neg = *q == '-'; if (*q == '-' || *q == '+') q++; if (!isdigit (*q)) return 0; long x = 0; while (isdigit (*q)) x = x * 10 + *q++ - '0'; *v = neg ? -x : x; return 1; }
  return 0;
}
static long any_kb (void) { switch (rnd (6)) { case 0: return 0; case 1: return 1 + rnd (100); case 2: return rnd (16000000); case 3: return 26000000 + rnd (40000000); case 4: return rnd (1ul << 30); default: return rnd (400000); } }
static void one_case (void)
{
  static const char *names[] = { "MemTotal:", "MemFree:", "MemAvailable:", "Buffers:", "Cached:", "SwapCached:", "Active:", "Inactive:", "Active(anon):", "Inactive(anon):", "Active(file):", "Inactive(file):", "Unevictable:", "Mlocked:", "Dirty:" };
  mkdir ("proc", 0700); preload_memory_t m; int want[5] = { 0 }, has_av = 0, sure = 1;
  unlink ("proc/meminfo"); rmdir ("proc/meminfo"); unlink ("proc/vmstat"); unlink ("proc/stat");
  int style = rnd (10), av = chance (70), drop = chance (30) ? (int) rnd (15) : -1, bad = chance (15) ? (int) rnd (6) : -1;
  len = 0; text[0] = 0; rd_fail_read = 0; memset (text, 0, sizeof text);
  if (style == 0) { len = rnd (9000); for (size_t i = 0; i < len; i++) text[i] = 1 + rnd (255); text[len] = 0; sure = 0; }
  else for (int i = 0; i < 15; i++) {
    if (i == drop || (i == 2 && !av)) continue;
    long v = any_kb (); if (chance (5)) v = 0;
    if (i == bad) put ("%s %s kB\n", names[i], chance (50) ? "?" : ""); else put ("%-15s %8ld kB\n", names[i], v);
    if (i == 2 && style == 1) for (int k = rnd (5000); k > 0; k--) put ("x");
    if (style == 1 && i == 2) put ("\n");
  }
  if (style == 2 && len) { len = rnd (len); text[len] = 0; }
  if (style == 3) { len = 4095 + (int) rnd (3); for (size_t i = strlen (text); i < len; i++) text[i] = chance (50) ? ' ' : 'y'; text[len] = 0; }
  note ("style %d av %d drop %d bad %d len %zu: %.900s", style, av, drop, bad, len, text);
  rd_put ("proc/meminfo", text, len);
  int gone = chance (8); if (gone) { unlink ("proc/meminfo"); if (chance (50)) mkdir ("proc/meminfo", 0700); note (" [unreadable]"); }
  if (chance (6)) { rd_fail_read = gone = 1; note (" [read fails]"); }
  if (gone) memset (text, 0, sizeof text);
  if (strlen (text) > 4095) { text[4095] = 0; if (len != 4095) sure = sure && style != 1 && len <= 4095; }
  for (int i = 0; i < 5; i++) { int ok = says (names[i], &want[i]); if (i == 2) has_av = ok; }
  char big[9000]; int o = rd_open;
  if (chance (70)) { int n = sprintf (big, "nr_free_pages 12\npgpgin %d\npgpgout %d\n", (int) rnd (100000), (int) rnd (100000)); if (chance (30)) { memset (big + n, 'z', 8000); n += chance (50) ? 4095 - n : 8000; } rd_put ("proc/vmstat", big, n); }
  else if (chance (50)) { int n = sprintf (big, "page %d %d\n", (int) rnd (100000), (int) rnd (100000)); rd_put ("proc/stat", big, n); }
  memset (&m, 0xA5, sizeof m); proc_get_memstat (&m);
  EXPECT (rd_open == o, "every file opened is closed");
  if (!sure) return;
  EXPECT (m.total == want[0], "total is the number reported"); EXPECT (m.free == want[1], "free is the number reported");
  EXPECT (m.buffers == want[3], "buffers is the number reported"); EXPECT (m.cached == want[4], "cached is the number reported");
  if (has_av && want[2]) EXPECT (m.available == want[2], "available is the number reported");
  else if (!want[1]) EXPECT (m.available == 0 || (want[1] == 0 && m.available == (int) (((gint64) want[4] * 80 / 100) + ((gint64) want[3] * 75 / 100))), "available is zero if nothing is known");
  else EXPECT (m.available == want[1] + (int) ((gint64) want[4] * 80 / 100) + (int) ((gint64) want[3] * 75 / 100), "available is estimated if it is not reported");
}
