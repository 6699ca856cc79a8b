// Simulated disk behind C stdio: fopen() in a run yields a cookie stream over an
// in-memory file, so glibc's own buffering and error propagation stay real while
// every transfer can be made to fail. Nothing in a run touches a real file.
//
// Fault sites: disk.open (open fails), disk.write (the device takes a prefix of
// the bytes and reports ENOSPC/EIO), disk.read (EIO or premature EOF mid-file),
// disk.close (the error surfaces at close).
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <string.h>

#include <string>

#include "rt.h"
#include "sim.h"

namespace rt {

struct File {
  char path[256];
  char* data;
  size_t size, cap;
  bool exists;
};
constexpr int kMaxFiles = 128;
static File files[kMaxFiles];
static int n_files = 0;
static u64 disk_faults = 0;
static int open_handles = 0;

struct Handle {
  File* f;
  size_t pos;
  bool read, write, append;
};

void DiskReset() {
  n_files = 0;
  disk_faults = 0;
}

static File* Find(const char* path, bool create) {
  for (int i = 0; i < n_files; ++i)
    if (strcmp(files[i].path, path) == 0) return (files[i].exists || create) ? &files[i] : nullptr;
  if (!create) return nullptr;
  if (n_files >= kMaxFiles) Fail("sim-disk", "too many simulated files");
  File* f = &files[n_files++];
  memset(f, 0, sizeof(*f));
  snprintf(f->path, sizeof(f->path), "%s", path);
  return f;
}

static void Put(File* f, size_t pos, const char* b, size_t n) {
  if (pos + n > f->cap) {
    size_t cap = (pos + n) * 2 + 4096;
    char* d = static_cast<char*>(RtAlloc(cap));
    memcpy(d, f->data, f->size);
    f->data = d;
    f->cap = cap;
  }
  if (pos > f->size) memset(f->data + f->size, 0, pos - f->size);
  memcpy(f->data + pos, b, n);
  if (pos + n > f->size) f->size = pos + n;
}

static ssize_t CWrite(void* c, const char* b, size_t n) {
  Handle* h = static_cast<Handle*>(c);
  if (h->append) h->pos = h->f->size;
  SyncPoint();
  if (sim::Fault("disk.write")) {
    ++disk_faults;
    size_t k = sim::FaultValue("disk.write#prefix", n);
    Put(h->f, h->pos, b, k);
    h->pos += k;
    errno = sim::FaultValue("disk.write#errno", 2) ? EIO : ENOSPC;
    return 0;
  }
  Put(h->f, h->pos, b, n);
  h->pos += n;
  return static_cast<ssize_t>(n);
}
static ssize_t CRead(void* c, char* b, size_t n) {
  Handle* h = static_cast<Handle*>(c);
  SyncPoint();
  if (sim::Fault("disk.read")) {
    ++disk_faults;
    errno = EIO;
    return -1;
  }
  size_t left = h->pos < h->f->size ? h->f->size - h->pos : 0;
  size_t k = n < left ? n : left;
  memcpy(b, h->f->data + h->pos, k);
  h->pos += k;
  return static_cast<ssize_t>(k);
}
static int CSeek(void* c, off64_t* off, int whence) {
  Handle* h = static_cast<Handle*>(c);
  if (sim::Fault("disk.seek")) {
    ++disk_faults;
    errno = EIO;
    return -1;
  }
  off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? static_cast<off64_t>(h->pos) : static_cast<off64_t>(h->f->size);
  if (base + *off < 0) {
    errno = EINVAL;
    return -1;
  }
  h->pos = static_cast<size_t>(base + *off);
  *off = static_cast<off64_t>(h->pos);
  return 0;
}
static int CClose(void* c) {
  Handle* h = static_cast<Handle*>(c);
  --open_handles;
  if (h->write && sim::Fault("disk.close")) {
    ++disk_faults;
    // Delayed allocation: the tail never made it to the device.
    size_t k = sim::FaultValue("disk.close#lost", h->f->size + 1);
    h->f->size -= k;
    errno = ENOSPC;
    return -1;
  }
  return 0;
}

static FILE* SimOpen(const char* path, const char* mode) {
  SyncPoint();
  if (sim::Fault("disk.open")) {
    ++disk_faults;
    static const int e[] = {EACCES, ENOSPC, EMFILE, EIO};
    errno = e[sim::FaultValue("disk.open#errno", 4)];
    return nullptr;
  }
  const bool plus = strchr(mode, '+') != nullptr;
  File* f;
  Handle* h = static_cast<Handle*>(RtAlloc(sizeof(Handle)));
  if (mode[0] == 'r') {
    f = Find(path, false);
    if (!f) {
      errno = ENOENT;
      return nullptr;
    }
    h->read = true;
    h->write = plus;
  } else {
    f = Find(path, true);
    if (mode[0] == 'w' || !f->exists) f->size = 0;
    f->exists = true;
    h->append = mode[0] == 'a';
    h->write = true;
    h->read = plus;
  }
  h->f = f;
  ++open_handles;
  cookie_io_functions_t io = {CRead, CWrite, CSeek, CClose};
  return fopencookie(h, mode, io);
}

}  // namespace rt

using namespace rt;

extern "C" {
FILE* fopen(const char* path, const char* mode) {
  static FILE* (*real)(const char*, const char*);
  if (self && active) return SimOpen(path, mode);
  if (!real) real = reinterpret_cast<FILE* (*)(const char*, const char*)>(dlsym(RTLD_NEXT, "fopen"));
  return real(path, mode);
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
}

namespace sim {
bool DiskExists(const std::string& p) { return Find(p.c_str(), false) != nullptr; }
std::string DiskRead(const std::string& p) {
  File* f = Find(p.c_str(), false);
  return f ? std::string(f->data, f->size) : std::string();
}
void DiskWrite(const std::string& p, const std::string& d) {
  File* f = Find(p.c_str(), true);
  f->exists = true;
  f->size = 0;
  Put(f, 0, d.data(), d.size());
}
std::vector<std::string> DiskList() {
  std::vector<std::string> v;
  for (int i = 0; i < n_files; ++i)
    if (files[i].exists) v.push_back(files[i].path);
  return v;
}
void DiskClear() { n_files = 0; }
uint64_t DiskFaults() { return disk_faults; }
int DiskOpenHandles() { return open_handles; }
}  // namespace sim
