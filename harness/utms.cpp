// Transaction manager server for the resource manager stand-in, as buildtms makes them
#include <atmi.h>
#include <string.h>
#include <xa.h>

extern "C" {
void TM(TPSVCINFO *);
int _tmrunserver(int);
extern struct xa_switch_t usys_switch;
extern int _tmbuilt_with_thread_option;
}

static struct tmdsptchtbl_t g_tab[2];
static struct tmsvrargs_t g_args;
struct tmsvrargs_t *_tmgetsvrargs() { return &g_args; }

int main(int argc, char **argv) {
  g_tab[0].svcname = const_cast<char *>(".TM");
  g_tab[0].funcname = const_cast<char *>("TM");
  g_tab[0].svcfunc = TM;
  g_args.xa_switch = &usys_switch;
  g_args.tmdsptchtbl = g_tab;
  g_args.svrinit = tpsvrinit;
  g_args.svrdone = tpsvrdone;
  g_args.mainloop = _tmrunserver;
  g_args.rminit = tprminit;
  g_args.svrthrinit = tpsvrthrinit;
  g_args.svrthrdone = tpsvrthrdone;
  _tmbuilt_with_thread_option = 0;
  return _tmstartserver(argc, argv, &g_args);
}
