// Declarations of the __real_ symbols produced by --wrap.
#pragma once
#include <pthread.h>
#include <time.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/timerfd.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <poll.h>
#include <ifaddrs.h>
#include <netdb.h>
#include <dirent.h>
#include <stdio.h>
#include <pwd.h>
#include <uuid/uuid.h>
#define REALFN(ret, name, ...) extern "C" ret __real_##name(__VA_ARGS__);
