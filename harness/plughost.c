/* C20: loads a plug-in that carries the static library */
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(int argc, char **argv) {
  int bind = atoi(argv[4]) & 1 ? RTLD_NOW : RTLD_LAZY;
  void *h = dlopen(argv[6], bind | RTLD_LOCAL), *s;
  int (*f)(int, char **);
  if (!h || !(s = dlsym(h, "plugin_main"))) { printf("FAIL %s\n", dlerror()); return 1; }
  memcpy(&f, &s, sizeof s);
  return f(argc, argv);
}
