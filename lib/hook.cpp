// Verification build only: lets a driver hold a server thread at the named points of the per-scenario connection cache.
// Each thread keeps a connection of its own to the driver's socket, says where it is and waits for one byte.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

namespace {
  const char *const controlPath = std::getenv("TRROUTING_VERIF_CTL");

  struct Link {
    int fd {-1};
    Link() {
      if (!controlPath || !*controlPath) return;
      fd = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
      sockaddr_un a {};
      a.sun_family = AF_UNIX;
      std::strncpy(a.sun_path, controlPath, sizeof(a.sun_path) - 1);
      if (fd >= 0 && ::connect(fd, reinterpret_cast<sockaddr *>(&a), sizeof(a)) != 0) {
        ::close(fd);
        fd = -1;
      }
    }
    ~Link() { if (fd >= 0) ::close(fd); }
  };
}

void trrouting_verif_point(const char *point) {
  if (!controlPath) return;
  thread_local Link link;
  if (link.fd < 0) return;
  std::string line = std::string(point) + "\n";
  char c;
  if (::send(link.fd, line.data(), line.size(), MSG_NOSIGNAL) < 0 || ::recv(link.fd, &c, 1, 0) <= 0) {
    ::close(link.fd);
    link.fd = -1;
  }
}
