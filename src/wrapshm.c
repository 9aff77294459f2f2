// Stand-in for System V shared memory: segments are files in gkv_shm_dir, so that nothing survives a check,
// and the attach address can be chosen. Linked with --wrap=shmget,shmat,shmdt,shmctl.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/ipc.h>
#include <sys/mman.h>
#include <sys/shm.h>
#include <sys/stat.h>
#include <unistd.h>
char gkv_shm_dir[256] = "";
void *gkv_shm_addr = 0;  // where the next attach goes (0: anywhere)
int gkv_shm_rdonly = 0, gkv_shm_rw = 0, gkv_shm_gets = 0;  // attaches of each kind, segment lookups
static struct { void *p; size_t n; } at[16];
static void path(char *b, int key) { snprintf(b, 320, "%s/shm%d", gkv_shm_dir, key); }
int __wrap_shmget(key_t key, size_t size, int flg) {
  char b[320];
  gkv_shm_gets++;
  if (!gkv_shm_dir[0]) { errno = EACCES; return -1; }
  path(b, key);
  struct stat st;
  if (!stat(b, &st)) {
    if ((flg & IPC_CREAT) && (flg & IPC_EXCL)) { errno = EEXIST; return -1; }
    if (size > (size_t)st.st_size) { errno = EINVAL; return -1; }
    return key;
  }
  if (!(flg & IPC_CREAT)) { errno = ENOENT; return -1; }
  int fd = open(b, O_CREAT | O_RDWR | O_EXCL, 0600);
  if (fd < 0) return -1;
  if (ftruncate(fd, size)) { close(fd); return -1; }
  close(fd);
  return key;
}
void *__wrap_shmat(int id, const void *addr, int flg) {
  char b[320];
  path(b, id);
  int ro = flg & SHM_RDONLY;
  int fd = open(b, ro ? O_RDONLY : O_RDWR);
  if (fd < 0) { errno = EINVAL; return (void *)-1; }
  struct stat st;
  fstat(fd, &st);
  void *want = addr ? (void *)addr : gkv_shm_addr;
  void *p = mmap(want, st.st_size, ro ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED | (want ? MAP_FIXED_NOREPLACE : 0), fd, 0);
  close(fd);
  if (p == MAP_FAILED) { errno = EINVAL; return (void *)-1; }
  if (ro) gkv_shm_rdonly++; else gkv_shm_rw++;
  for (int i = 0; i < 16; i++) if (!at[i].p) { at[i].p = p; at[i].n = st.st_size; break; }
  return p;
}
int __wrap_shmdt(const void *p) {
  for (int i = 0; i < 16; i++) if (at[i].p == p) { munmap(at[i].p, at[i].n); at[i].p = 0; return 0; }
  errno = EINVAL;
  return -1;
}
int __wrap_shmctl(int id, int cmd, struct shmid_ds *buf) {
  char b[320];
  path(b, id);
  if (cmd == IPC_RMID) { if (unlink(b)) { errno = EINVAL; return -1; } return 0; }
  if (cmd == IPC_STAT && buf) {
    struct stat st;
    if (stat(b, &st)) { errno = EINVAL; return -1; }
    buf->shm_perm.mode = 0600;
    buf->shm_segsz = st.st_size;
    return 0;
  }
  errno = EINVAL;
  return -1;
}
