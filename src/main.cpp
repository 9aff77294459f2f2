#include "core.hpp"
#include <malloc.h>
int main(int argc, char **argv) {
  // big allocations straight from the kernel: fresh zero pages, returned on free
  mallopt(M_MMAP_THRESHOLD, 256 * 1024);
  Driver d;
  string chk;
  if (argc > 2 && !strcmp(argv[1], "run")) {  // run STEP args...: gkc itself with the virtual clock
    gkv_clock_step = atol(argv[2]);
    vector<char *> av = {argv[0]};
    for (int i = 3; i < argc; i++) av.push_back(argv[i]);
    int n = av.size();
    av.push_back(nullptr);
    return gkc_orig_main(n, av.data());
  }
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    if (a == "--tier") d.tier = argv[++i];
    else if (a == "--out") d.outfile = argv[++i];
    else if (a == "--jobs") d.jobs = atoi(argv[++i]);
    else if (a == "--budget") d.budget = atof(argv[++i]);
    else if (a == "--scratch") d.scratch = argv[++i];
    else chk = a;
  }
  if (d.outfile.empty()) d.outfile = "/dev/stdout";
  if (d.scratch.empty()) d.scratch = "/tmp";
  auto it = CheckReg::all().find(chk);
  if (it == CheckReg::all().end()) {
    fprintf(stderr, "unknown check %s\n", chk.c_str());
    return 2;
  }
  it->second(d);
  d.write();
  return 0;
}
