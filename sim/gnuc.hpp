// forced include: clang takes the branches the shipping compiler (gcc) takes in the library.
// Standard headers come first, they must see the real compiler.
#include <algorithm>
#include <cerrno>
#include <csetjmp>
#include <cstdarg>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iosfwd>
#include <iostream>
#include <istream>
#include <iterator>
#include <limits>
#include <link.h>
#include <list>
#include <locale.h>
#include <map>
#include <memory>
#include <new>
#include <ostream>
#include <poll.h>
#include <pthread.h>
#include <set>
#include <setjmp.h>
#include <signal.h>
#include <sstream>
#include <stddef.h>
#include <stdexcept>
#include <stdint.h>
#include <streambuf>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/single_threaded.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#if defined(__clang__)
#undef __GNUC__
#undef __GNUC_MINOR__
#define __GNUC__ 13
#define __GNUC_MINOR__ 3
#endif
