/* Stands in for the library's _tmstartserver: tells what the generated program
   handed over and calls every function in its table. */
#include <atmi.h>
#include <xa.h>
#include <stdio.h>
#include <string.h>
extern int _tmbuilt_with_thread_option;
int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *a) {
  printf("threads %d\n", _tmbuilt_with_thread_option);
  printf("rm %s\n", a && a->xa_switch ? ((struct xa_switch_t *)a->xa_switch)->name : "(null)");
  for (struct tmdsptchtbl_t *t = a ? a->tmdsptchtbl : 0; t && t->svcname; t++) {
    TPSVCINFO s;
    memset(&s, 0, sizeof s);
    strncpy(s.name, t->svcname, sizeof s.name - 1);
    printf("service %s %s ", t->svcname, t->funcname ? t->funcname : "(null)");
    fflush(stdout);
    if (t->svcfunc && t->svcname[0] != '.') t->svcfunc(&s); else puts(t->svcfunc ? "set" : "(null)");
  }
  printf("args");
  for (int i = 1; i < argc; i++) printf(" %s", argv[i]);
  puts("");
  return 0;
}
