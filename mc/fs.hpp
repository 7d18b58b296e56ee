// Fault injector of the file system calls of the process: counts them, makes one fail, or ends the process in the middle of one.
#pragma once
#include <cerrno>
#include <cstdio>
#include <dlfcn.h>
#include <string>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>

namespace fs_fault
{
    enum Call { OPEN, WRITE, CLOSE, RENAME, REMOVE, OTHER };
    inline const char* callName(int c)
    {
        static const char* names[] = {"open", "write", "close", "rename", "remove", "other"};
        return names[c];
    }
    struct Operation
    {
        int call;
        size_t size;
    };
    enum Effect { NONE, CRASH, ERROR, SHORT }; // SHORT: a write accepts only a part of the bytes
    struct Fault
    {
        int operation = -1; // number of the call
        Effect effect = NONE;
        size_t bytes = 0; // written before the crash, the error or the end of the short write
        int error = EIO;
    };

    inline bool armed = false;
    inline std::vector<Operation> trace;
    inline std::vector<Fault> faults;

    inline const Fault* next(int call, size_t size = 0)
    {
        trace.push_back({call, size});
        for (const auto& f : faults)
            if (f.operation == (int)trace.size() - 1)
                return &f;
        return nullptr;
    }

    template <class F>
    F real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

    inline void arm(std::vector<Fault> f = {})
    {
        trace.clear();
        faults = std::move(f);
        armed = true;
    }
    inline void disarm() { armed = false; }

    // Returns true when the call must fail now.
    inline bool stop(int call)
    {
        const Fault* f = next(call);
        if (!f || f->effect == NONE || f->effect == SHORT)
            return false;
        if (f->effect == CRASH)
            _exit(42);
        errno = f->error;
        return true;
    }
}

#ifdef MC_MAIN
extern "C"
{
#define FS_OPEN(name) \
    FILE* name(const char* path, const char* mode) \
    { \
        static auto f = fs_fault::real<FILE* (*)(const char*, const char*)>(#name); \
        if (fs_fault::armed && fs_fault::stop(fs_fault::OPEN)) return nullptr; \
        return f(path, mode); \
    }
    FS_OPEN(fopen)
    FS_OPEN(fopen64)
    int fclose(FILE* file)
    {
        static auto f = fs_fault::real<int (*)(FILE*)>("fclose");
        if (fs_fault::armed && fs_fault::stop(fs_fault::CLOSE))
        {
            const int e = errno;
            f(file);
            errno = e;
            return EOF;
        }
        return f(file);
    }
    ssize_t write(int fd, const void* data, size_t size)
    {
        static auto f = fs_fault::real<ssize_t (*)(int, const void*, size_t)>("write");
        if (!fs_fault::armed)
            return f(fd, data, size);
        const auto* fault = fs_fault::next(fs_fault::WRITE, size);
        if (!fault || fault->effect == fs_fault::NONE)
            return f(fd, data, size);
        const size_t n = fault->bytes < size ? fault->bytes : size;
        ssize_t r = n || fault->effect == fs_fault::SHORT ? f(fd, data, n) : 0;
        if (fault->effect == fs_fault::CRASH)
            _exit(42);
        if (fault->effect == fs_fault::SHORT)
            return r;
        errno = fault->error;
        return -1;
    }
    ssize_t writev(int fd, const iovec* v, int count)
    {
        static auto f = fs_fault::real<ssize_t (*)(int, const iovec*, int)>("writev");
        if (!fs_fault::armed)
            return f(fd, v, count);
        std::string all;
        for (int i = 0; i < count; ++i)
            all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
        return write(fd, all.data(), all.size());
    }
    int rename(const char* a, const char* b)
    {
        static auto f = fs_fault::real<int (*)(const char*, const char*)>("rename");
        if (fs_fault::armed && fs_fault::stop(fs_fault::RENAME)) return -1;
        return f(a, b);
    }
#define FS_PATH(name, call) \
    int name(const char* a) \
    { \
        static auto f = fs_fault::real<int (*)(const char*)>(#name); \
        if (fs_fault::armed && fs_fault::stop(call)) return -1; \
        return f(a); \
    }
    FS_PATH(remove, fs_fault::REMOVE)
    FS_PATH(unlink, fs_fault::REMOVE)
    int fsync(int fd)
    {
        static auto f = fs_fault::real<int (*)(int)>("fsync");
        if (fs_fault::armed && fs_fault::stop(fs_fault::OTHER)) return -1;
        return f(fd);
    }
    int ftruncate(int fd, off_t n)
    {
        static auto f = fs_fault::real<int (*)(int, off_t)>("ftruncate");
        if (fs_fault::armed && fs_fault::stop(fs_fault::OTHER)) return -1;
        return f(fd, n);
    }
}
#endif
