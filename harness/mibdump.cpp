// C17: what a process that joins the domain finds in the shared tables.
#include <stdio.h>
#include <stdlib.h>
#include <string>
#include "ipc.h"
#include "mib.h"
static void q(const char *k, const std::string &v) {
  printf("%s=", k);
  for (unsigned char c : v)
    if (c < 33 || c > 126 || c == '%' || c == '|') printf("%%%02x", c);
    else putchar(c);
  putchar('|');
}
static void n(const char *k, long v) { printf("%s=%ld|", k, v); }
int main() {
  try {
    mib &m = getmib();
    printf("domain|");
    n("ipckey", (int)m.domain().ipckey);
    n("maxservers", m.domain().maxservers);
    n("maxservices", m.domain().maxservices);
    n("maxqueues", m.domain().maxqueues);
    n("maxgroups", m.domain().maxgroups);
    n("maxaccessers", m.domain().maxaccessers);
    n("cap_servers", m.servers().size());
    n("cap_services", m.services().size());
    n("cap_queues", m.queues().size());
    n("cap_groups", m.groups().size());
    n("cap_accessers", m.accessers().size());
    puts("");
    printf("machine|");
    q("address", m.mach().address);
    q("lmid", m.mach().lmid);
    q("tuxconfig", m.mach().tuxconfig);
    q("tuxdir", m.mach().tuxdir);
    q("appdir", m.mach().appdir);
    q("ulogpfx", m.mach().ulogpfx);
    q("tlogdevice", m.mach().tlogdevice);
    n("blocktime", m.mach().blocktime);
    puts("");
    for (size_t i = 0; i < m.groups().length(); i++) {
      auto &g = m.groups().at(i);
      printf("group|");
      n("grpno", g.grpno);
      q("srvgrp", g.srvgrp);
      q("openinfo", g.openinfo);
      q("closeinfo", g.closeinfo);
      q("tmsname", g.tmsname);
      puts("");
    }
    for (size_t i = 0; i < m.servers().length(); i++) {
      auto &s = m.servers().at(i);
      printf("server|");
      n("srvid", s.srvid);
      n("grpno", s.grpno);
      q("servername", s.servername);
      q("clopt", s.clopt);
      n("autostart", s.autostart);
      n("minthreads", s.mindispatchthreads);
      n("maxthreads", s.maxdispatchthreads);
      q("rqaddr", m.queues().at(s.rqaddr).rqaddr);
      n("queue_servers", m.queues().at(s.rqaddr).servercnt);
      puts("");
    }
    puts("end");
    m.remove();
  } catch (const std::exception &e) {
    printf("exception %s\n", e.what());
    return 3;
  }
  return 0;
}
