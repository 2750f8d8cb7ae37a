#include "cc.h"
#include <cerrno>
#include <csignal>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

int runTool(const std::vector<std::string>& argv, const std::string& cwd, std::string& out)
{
  std::string log = cwd + "/.tool-output";
  std::vector<char*> a;
  for (auto& s : argv) a.push_back((char*)s.c_str());
  a.push_back(nullptr);
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 1, log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  posix_spawn_file_actions_adddup2(&fa, 1, 2);
  posix_spawn_file_actions_addchdir_np(&fa, cwd.c_str());
  std::string tmp = "TMPDIR=" + cwd;
  const char* path = getenv("PATH");
  std::string pth = std::string("PATH=") + (path ? path : "/usr/bin:/bin");
  char* env[] = {(char*)pth.c_str(), (char*)tmp.c_str(), (char*)"LC_ALL=C", nullptr};
  pid_t pid = 0;
  int e = posix_spawnp(&pid, a[0], &fa, nullptr, a.data(), env);
  posix_spawn_file_actions_destroy(&fa);
  if (e) { out = std::string("cannot run ") + argv[0] + ": " + strerror(e); return -1; }
  int st = 0;
  double t0 = monotonic();
  for (;;)
  {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    if (w < 0 && errno != EINTR) break;
    if (monotonic() - t0 > 120) { syscall(SYS_kill, pid, SIGKILL); waitpid(pid, &st, 0); out = "tool timed out"; return -2; }
    struct timespec ts{0, 500000};
    syscall(SYS_nanosleep, &ts, nullptr);
  }
  out = readFile(log);
  return WIFEXITED(st) ? WEXITSTATUS(st) : -3;
}
void removeTree(const std::string& dir)
{
  if (dir.size() < 6) return;
  DIR* d = opendir(dir.c_str());
  if (!d) { unlink(dir.c_str()); return; }
  std::vector<std::string> n;
  while (auto e = readdir(d)) { std::string s = e->d_name; if (s != "." && s != "..") n.push_back(s); }
  closedir(d);
  for (auto& s : n)
  {
    struct stat st;
    std::string p = dir + "/" + s;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) removeTree(p); else unlink(p.c_str());
  }
  rmdir(dir.c_str());
}
bool putFile(const std::string& path, const std::string& data)
{
  for (size_t i = 1; i < path.size(); i++) if (path[i] == '/') mkdir(path.substr(0, i).c_str(), 0755);
  return writeFile(path, data);
}
