#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simdisk.hpp"

#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim
{

Disk g_disk;

namespace
{

constexpr int FD_BASE = 1 << 20;
constexpr int FD_MAX = 64;

struct Handle
{
    bool used = false;
    std::shared_ptr<Disk::Inode> inode;
    uint64_t pos = 0;
    int flags = 0;
    size_t durable = 0; // length of the data that a delayed write failure cannot take back
    bool wrote = false;
};
Handle g_handles[FD_MAX];

bool isSimPath(const char* p)
{
    return p != nullptr && strncmp(p, "/sim/", 5) == 0 && g_ctx != nullptr;
}
bool isSimFd(int fd)
{
    return fd >= FD_BASE && fd < FD_BASE + FD_MAX && g_handles[fd - FD_BASE].used;
}

// decides whether this device operation fails hard
bool hard()
{
    const int64_t n = g_disk.ops++;
    g_ctx->step();
    return g_disk.hardAt >= 0 && (n == g_disk.hardAt || (g_disk.sticky && n > g_disk.hardAt));
}
bool softFault(bool enabled)
{
    return enabled && g_ctx->flip(1, g_disk.softDen);
}
void shrinkHook(Handle& h)
{
    if (g_disk.shrinkAt >= 0 && g_disk.ops - 1 == g_disk.shrinkAt && h.inode->data.size() > g_disk.shrinkTo)
    {
        h.inode->data.resize(g_disk.shrinkTo);
        g_disk.shrunk = true;
        SIM_COUNT("fault.file-shrunk-in-use");
        g_ctx->log("disk: file truncated to %llu by another process",
                static_cast<unsigned long long>(g_disk.shrinkTo));
    }
}

int simOpen(const char* path, int flags)
{
    const Untracked untracked;
    const bool forWrite = (flags & O_ACCMODE) != O_RDONLY;
    if (hard())
    {
        static const int wr[] = {EACCES, ENOSPC, EROFS, EMFILE, EIO, EINTR, EDQUOT};
        static const int rd[] = {EACCES, EIO, EMFILE, EINTR};
        const int e = forWrite ? wr[g_ctx->choose(7)] : rd[g_ctx->choose(4)];
        (forWrite ? g_disk.hardData : g_disk.hardRead)++;
        SIM_COUNT("fault.open");
        g_ctx->log("disk: open %s fails: %s", path, strerrorname_np(e));
        errno = e;
        return -1;
    }
    std::string p = path;
    if (p.find('/', 5) != std::string::npos)
    {
        g_disk.hardData += forWrite ? 1 : 0;
        g_disk.hardRead += forWrite ? 0 : 1;
        errno = ENOENT; // no directories below /sim
        return -1;
    }
    auto it = g_disk.files.find(p);
    if (it == g_disk.files.end())
    {
        if ((flags & O_CREAT) == 0)
        {
            g_disk.hardRead++;
            errno = ENOENT;
            return -1;
        }
        it = g_disk.files.emplace(p, std::make_shared<Disk::Inode>()).first;
    }
    else if ((flags & (O_CREAT | O_EXCL)) == (O_CREAT | O_EXCL))
    {
        errno = EEXIST;
        return -1;
    }
    if (forWrite && it->second->readOnly)
    {
        g_disk.hardData++;
        SIM_COUNT("fault.read-only-file");
        errno = EACCES;
        return -1;
    }
    for (int i = 0; i < FD_MAX; ++i)
    {
        Handle& h = g_handles[i];
        if (!h.used)
        {
            h.used = true;
            h.inode = it->second;
            h.flags = flags;
            h.pos = 0;
            h.wrote = false;
            if ((flags & O_TRUNC) != 0 && forWrite)
            {
                h.inode->data.clear();
            }
            h.durable = h.inode->data.size();
            g_disk.openCount++;
            g_ctx->log("disk: open %s%s", path, forWrite ? " for writing" : "");
            return FD_BASE + i;
        }
    }
    errno = EMFILE;
    return -1;
}

int simClose(int fd)
{
    const Untracked untracked;
    Handle& h = g_handles[fd - FD_BASE];
    const bool failed = hard();
    h.used = false;
    g_disk.openCount--;
    int rc = 0;
    if (failed && (h.flags & O_ACCMODE) != O_RDONLY)
    {
        static const int errs[] = {EIO, ENOSPC, EDQUOT};
        const int e = errs[g_ctx->choose(3)];
        g_disk.hardData++;
        SIM_COUNT("fault.close");
        if (h.wrote && g_disk.delayedAtClose)
        {
            // delayed allocation: what the device accepted into its cache never gets stored
            const size_t keep = g_ctx->choose(h.inode->data.size() + 1);
            h.inode->data.resize(keep);
            SIM_COUNT("fault.delayed-write-loss");
        }
        g_ctx->log("disk: close fails: %s, %zu bytes on the device", strerrorname_np(e), h.inode->data.size());
        errno = e;
        rc = -1;
    }
    h.inode.reset();
    return rc;
}

ssize_t simWriteAt(Handle& h, const void* buf, size_t n, uint64_t pos)
{
    if ((h.flags & O_ACCMODE) == O_RDONLY)
    {
        errno = EBADF;
        return -1;
    }
    if (n == 0)
    {
        return 0;
    }
    if (hard())
    {
        static const int errs[] = {ENOSPC, EIO, EDQUOT, EFBIG};
        const int e = errs[g_ctx->choose(4)];
        g_disk.hardData++;
        SIM_COUNT("fault.write");
        g_ctx->log("disk: write of %zu fails: %s", n, strerrorname_np(e));
        errno = e;
        return -1;
    }
    if (softFault(g_disk.softEintr))
    {
        g_disk.soft++;
        SIM_COUNT("fault.eintr-write");
        g_ctx->log("disk: write of %zu interrupted", n);
        errno = EINTR;
        return -1;
    }
    size_t m = n;
    if (n > 1 && softFault(g_disk.softShort))
    {
        m = 1 + g_ctx->choose(n - 1);
        g_disk.soft++;
        SIM_COUNT("fault.short-write");
    }
    auto& d = h.inode->data;
    const uint64_t end = pos + m;
    if (end > d.size())
    {
        const uint64_t used = g_disk.used();
        const uint64_t grow = end - d.size();
        if (used + grow > g_disk.capacity)
        {
            const uint64_t room = g_disk.capacity > used ? g_disk.capacity - used : 0;
            const uint64_t can = d.size() + room;
            if (can <= pos)
            {
                g_disk.hardData++;
                SIM_COUNT("fault.device-full");
                g_ctx->log("disk: write of %zu fails: device full", n);
                errno = ENOSPC;
                return -1;
            }
            m = static_cast<size_t>(can - pos);
        }
        d.resize(static_cast<size_t>(std::max<uint64_t>(d.size(), pos + m)));
    }
    memcpy(d.data() + pos, buf, m);
    h.wrote = true;
    g_ctx->log("disk: wrote %zu of %zu at %llu", m, n, static_cast<unsigned long long>(pos));
    return static_cast<ssize_t>(m);
}

ssize_t simReadAt(Handle& h, void* buf, size_t n, uint64_t pos)
{
    if ((h.flags & O_ACCMODE) == O_WRONLY)
    {
        errno = EBADF;
        return -1;
    }
    if (n == 0)
    {
        return 0;
    }
    if (hard())
    {
        static const int errs[] = {EIO, ESTALE, ENOMEM};
        const int e = errs[g_ctx->choose(3)];
        g_disk.hardRead++;
        SIM_COUNT("fault.read");
        g_ctx->log("disk: read of %zu fails: %s", n, strerrorname_np(e));
        errno = e;
        return -1;
    }
    shrinkHook(h);
    if (softFault(g_disk.softEintr))
    {
        g_disk.soft++;
        SIM_COUNT("fault.eintr-read");
        g_ctx->log("disk: read of %zu interrupted", n);
        errno = EINTR;
        return -1;
    }
    const auto& d = h.inode->data;
    if (pos >= d.size())
    {
        g_ctx->log("disk: end of file");
        return 0;
    }
    size_t m = std::min<size_t>(n, d.size() - static_cast<size_t>(pos));
    if (m > 1 && softFault(g_disk.softShort))
    {
        m = 1 + g_ctx->choose(m - 1);
        g_disk.soft++;
        SIM_COUNT("fault.short-read");
    }
    memcpy(buf, d.data() + pos, m);
    g_ctx->log("disk: read %zu of %zu at %llu", m, n, static_cast<unsigned long long>(pos));
    return static_cast<ssize_t>(m);
}

int64_t simSeek(int fd, int64_t off, int whence)
{
    const Untracked untracked;
    Handle& h = g_handles[fd - FD_BASE];
    if (hard())
    {
        g_disk.hardProbe++;
        SIM_COUNT("fault.seek");
        g_ctx->log("disk: seek fails");
        errno = EIO;
        return -1;
    }
    shrinkHook(h);
    int64_t base = 0;
    if (whence == SEEK_CUR)
    {
        base = static_cast<int64_t>(h.pos);
    }
    else if (whence == SEEK_END)
    {
        base = static_cast<int64_t>(h.inode->data.size());
    }
    if (base + off < 0)
    {
        errno = EINVAL;
        return -1;
    }
    h.pos = static_cast<uint64_t>(base + off);
    return base + off;
}

int simFstat(const Disk::Inode& inode, struct stat* st)
{
    if (hard())
    {
        g_disk.hardProbe++;
        SIM_COUNT("fault.stat");
        errno = EIO;
        return -1;
    }
    memset(st, 0, sizeof(*st));
    st->st_mode = S_IFREG | 0644;
    st->st_size = static_cast<off_t>(inode.data.size());
    st->st_blksize = 4096;
    st->st_nlink = 1;
    return 0;
}

template <typename F>
F real(const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

// stdio on top of a simulated descriptor
struct Cookie
{
    int fd;
};
struct OpenFile
{
    FILE* f = nullptr;
    int fd = -1;
};
OpenFile g_files[FD_MAX];

ssize_t cookieRead(void* c, char* buf, size_t n)
{
    const Untracked untracked;
    Handle& h = g_handles[static_cast<int>(reinterpret_cast<intptr_t>(c)) - FD_BASE];
    const ssize_t r = simReadAt(h, buf, n, h.pos);
    if (r > 0)
    {
        h.pos += static_cast<uint64_t>(r);
    }
    return r;
}
ssize_t cookieWrite(void* c, const char* buf, size_t n)
{
    const Untracked untracked;
    Handle& h = g_handles[static_cast<int>(reinterpret_cast<intptr_t>(c)) - FD_BASE];
    const ssize_t r = simWriteAt(h, buf, n, h.pos);
    if (r > 0)
    {
        h.pos += static_cast<uint64_t>(r);
    }
    return r < 0 ? 0 : r;
}
int cookieSeek(void* c, off64_t* off, int whence)
{
    const int64_t r = simSeek(static_cast<int>(reinterpret_cast<intptr_t>(c)), *off, whence);
    if (r < 0)
    {
        return -1;
    }
    *off = r;
    return 0;
}
int cookieClose(void* c)
{
    return simClose(static_cast<int>(reinterpret_cast<intptr_t>(c)));
}

FILE* simFopen(const char* path, const char* mode)
{
    int flags = 0;
    const bool plus = strchr(mode, '+') != nullptr;
    switch (mode[0])
    {
    case 'r':
        flags = plus ? O_RDWR : O_RDONLY;
        break;
    case 'w':
        flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
        break;
    default:
        flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
        break;
    }
    if (strchr(mode, 'x') != nullptr)
    {
        flags |= O_EXCL;
    }
    const int fd = simOpen(path, flags);
    if (fd < 0)
    {
        return nullptr;
    }
    const Untracked untracked;
    cookie_io_functions_t io = {cookieRead, cookieWrite, cookieSeek, cookieClose};
    FILE* f = fopencookie(reinterpret_cast<void*>(static_cast<intptr_t>(fd)), mode, io);
    for (auto& e : g_files)
    {
        if (e.f == nullptr)
        {
            e.f = f;
            e.fd = fd;
            break;
        }
    }
    return f;
}
int simFileno(FILE* f)
{
    for (auto& e : g_files)
    {
        if (e.f == f && f != nullptr)
        {
            return e.fd;
        }
    }
    return -1;
}

} // namespace

uint64_t Disk::used() const
{
    uint64_t n = 0;
    for (const auto& f : files)
    {
        n += f.second->data.size();
    }
    return n;
}

void Disk::reset()
{
    const Untracked untracked;
    for (auto& h : g_handles)
    {
        h = Handle();
    }
    for (auto& f : g_files)
    {
        f = OpenFile();
    }
    *this = Disk();
}

void Disk::arm()
{
    ops = 0;
    hardData = hardRead = hardProbe = soft = 0;
    shrunk = false;
}

void Disk::heal()
{
    softShort = softEintr = false;
    capacity = UINT64_MAX;
    hardAt = -1;
    sticky = false;
    shrinkAt = -1;
    delayedAtClose = false;
    for (auto& f : files)
    {
        f.second->readOnly = false;
    }
    arm();
}

} // namespace sim

using namespace sim;

extern "C"
{

int open(const char* path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    const int mode = va_arg(ap, int);
    va_end(ap);
    if (isSimPath(path))
    {
        return simOpen(path, flags);
    }
    return static_cast<int>(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
}
int open64(const char* path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    const int mode = va_arg(ap, int);
    va_end(ap);
    return open(path, flags, mode);
}
int openat(int dir, const char* path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    const int mode = va_arg(ap, int);
    va_end(ap);
    if (isSimPath(path))
    {
        return simOpen(path, flags);
    }
    return static_cast<int>(syscall(SYS_openat, dir, path, flags, mode));
}
int creat(const char* path, mode_t mode)
{
    return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode);
}
FILE* fopen(const char* path, const char* mode)
{
    if (isSimPath(path))
    {
        return simFopen(path, mode);
    }
    static const auto f = real<FILE* (*)(const char*, const char*)>("fopen");
    return f(path, mode);
}
FILE* fopen64(const char* path, const char* mode)
{
    return fopen(path, mode);
}
int fclose(FILE* fp)
{
    for (auto& e : g_files)
    {
        if (e.f == fp && fp != nullptr)
        {
            e = OpenFile();
        }
    }
    static const auto f = real<int (*)(FILE*)>("fclose");
    return f(fp);
}
int fileno(FILE* fp) __THROW
{
    const int fd = simFileno(fp);
    if (fd >= 0)
    {
        return fd;
    }
    static const auto f = real<int (*)(FILE*)>("fileno");
    return f(fp);
}
int close(int fd)
{
    if (isSimFd(fd))
    {
        return simClose(fd);
    }
    return static_cast<int>(syscall(SYS_close, fd));
}
ssize_t read(int fd, void* buf, size_t n)
{
    if (isSimFd(fd))
    {
        const Untracked untracked;
        Handle& h = g_handles[fd - FD_BASE];
        const ssize_t r = simReadAt(h, buf, n, h.pos);
        h.pos += r > 0 ? static_cast<uint64_t>(r) : 0;
        return r;
    }
    return syscall(SYS_read, fd, buf, n);
}
ssize_t pread(int fd, void* buf, size_t n, off_t off)
{
    if (isSimFd(fd))
    {
        const Untracked untracked;
        return simReadAt(g_handles[fd - FD_BASE], buf, n, static_cast<uint64_t>(off));
    }
    return syscall(SYS_pread64, fd, buf, n, off);
}
ssize_t write(int fd, const void* buf, size_t n)
{
    if (isSimFd(fd))
    {
        const Untracked untracked;
        Handle& h = g_handles[fd - FD_BASE];
        if ((h.flags & O_APPEND) != 0)
        {
            h.pos = h.inode->data.size();
        }
        const ssize_t r = simWriteAt(h, buf, n, h.pos);
        h.pos += r > 0 ? static_cast<uint64_t>(r) : 0;
        return r;
    }
    return syscall(SYS_write, fd, buf, n);
}
ssize_t pwrite(int fd, const void* buf, size_t n, off_t off)
{
    if (isSimFd(fd))
    {
        const Untracked untracked;
        return simWriteAt(g_handles[fd - FD_BASE], buf, n, static_cast<uint64_t>(off));
    }
    return syscall(SYS_pwrite64, fd, buf, n, off);
}
ssize_t readv(int fd, const struct iovec* iov, int cnt)
{
    if (isSimFd(fd))
    {
        ssize_t total = 0;
        for (int i = 0; i < cnt; ++i)
        {
            const ssize_t r = read(fd, iov[i].iov_base, iov[i].iov_len);
            if (r < 0)
            {
                return total > 0 ? total : r;
            }
            total += r;
            if (static_cast<size_t>(r) < iov[i].iov_len)
            {
                break;
            }
        }
        return total;
    }
    return syscall(SYS_readv, fd, iov, cnt);
}
ssize_t writev(int fd, const struct iovec* iov, int cnt)
{
    if (isSimFd(fd))
    {
        // one device operation for the whole vector
        const Untracked untracked;
        std::vector<char> all;
        for (int i = 0; i < cnt; ++i)
        {
            const char* b = static_cast<const char*>(iov[i].iov_base);
            all.insert(all.end(), b, b + iov[i].iov_len);
        }
        return write(fd, all.data(), all.size());
    }
    return syscall(SYS_writev, fd, iov, cnt);
}
off_t lseek(int fd, off_t off, int whence) __THROW
{
    return isSimFd(fd) ? simSeek(fd, off, whence) : syscall(SYS_lseek, fd, off, whence);
}
off64_t lseek64(int fd, off64_t off, int whence) __THROW
{
    return isSimFd(fd) ? simSeek(fd, off, whence) : syscall(SYS_lseek, fd, off, whence);
}
int fstat(int fd, struct stat* st) __THROW
{
    if (isSimFd(fd))
    {
        return simFstat(*g_handles[fd - FD_BASE].inode, st);
    }
    return static_cast<int>(syscall(SYS_fstat, fd, st));
}
int fstat64(int fd, struct stat64* st) __THROW
{
    return fstat(fd, reinterpret_cast<struct stat*>(st));
}
int stat(const char* path, struct stat* st) __THROW
{
    if (isSimPath(path))
    {
        auto it = g_disk.files.find(path);
        if (it == g_disk.files.end())
        {
            errno = ENOENT;
            return -1;
        }
        return simFstat(*it->second, st);
    }
    return static_cast<int>(syscall(SYS_stat, path, st));
}
int stat64(const char* path, struct stat64* st) __THROW
{
    return stat(path, reinterpret_cast<struct stat*>(st));
}
int lstat(const char* path, struct stat* st) __THROW
{
    if (isSimPath(path))
    {
        return stat(path, st);
    }
    return static_cast<int>(syscall(SYS_lstat, path, st));
}
int access(const char* path, int mode) __THROW
{
    if (isSimPath(path))
    {
        errno = ENOENT;
        return g_disk.files.count(path) != 0 ? 0 : -1;
    }
    return static_cast<int>(syscall(SYS_access, path, mode));
}
int ftruncate(int fd, off_t len) __THROW
{
    if (isSimFd(fd))
    {
        const Untracked untracked;
        if (hard())
        {
            g_disk.hardData++;
            SIM_COUNT("fault.truncate");
            errno = EIO;
            return -1;
        }
        g_handles[fd - FD_BASE].inode->data.resize(static_cast<size_t>(len));
        return 0;
    }
    return static_cast<int>(syscall(SYS_ftruncate, fd, len));
}
int fsync(int fd)
{
    if (isSimFd(fd))
    {
        if (hard())
        {
            g_disk.hardData++;
            SIM_COUNT("fault.fsync");
            errno = EIO;
            return -1;
        }
        return 0;
    }
    return static_cast<int>(syscall(SYS_fsync, fd));
}
int fdatasync(int fd)
{
    return fsync(fd);
}
int rename(const char* from, const char* to) __THROW
{
    if (isSimPath(from) && isSimPath(to))
    {
        const Untracked untracked;
        if (hard())
        {
            g_disk.hardData++;
            SIM_COUNT("fault.rename");
            errno = EIO;
            return -1;
        }
        auto it = g_disk.files.find(from);
        if (it == g_disk.files.end())
        {
            errno = ENOENT;
            return -1;
        }
        auto inode = it->second;
        g_disk.files.erase(it);
        g_disk.files[to] = inode;
        return 0;
    }
    return static_cast<int>(syscall(SYS_rename, from, to));
}
int unlink(const char* path) __THROW
{
    if (isSimPath(path))
    {
        const Untracked untracked;
        errno = ENOENT;
        return g_disk.files.erase(path) != 0 ? 0 : -1;
    }
    return static_cast<int>(syscall(SYS_unlink, path));
}
int remove(const char* path) __THROW
{
    return unlink(path);
}
int ioctl(int fd, unsigned long req, ...) __THROW
{
    va_list ap;
    va_start(ap, req);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    if (isSimFd(fd))
    {
        if (req == FIONREAD)
        {
            Handle& h = g_handles[fd - FD_BASE];
            *static_cast<int*>(arg) = static_cast<int>(
                    h.inode->data.size() > h.pos ? h.inode->data.size() - h.pos : 0);
            return 0;
        }
        errno = ENOTTY;
        return -1;
    }
    return static_cast<int>(syscall(SYS_ioctl, fd, req, arg));
}
int poll(struct pollfd* fds, nfds_t n, int timeout)
{
    if (n == 1 && isSimFd(fds[0].fd))
    {
        fds[0].revents = fds[0].events;
        return 1;
    }
    return static_cast<int>(syscall(SYS_poll, fds, n, timeout));
}

} // extern "C"
