// Socket streams carry every character, in order, and report what they cannot carry.
// BOUND: up to 6 (quick) or 9 characters of any value, written one by one, as a block or as strings; the connection breaking after any byte, and writes that take one byte at a time
// BOUND: input of up to 6 (quick) or 9 bytes of any value, then the end of the connection or an error
// ASSUME: the socket is replaced by a model of read, write and close; on input a carriage return is followed by a line feed
#include <istream>
#include <ostream>
#include <string>
#include "vf_sock.h"
#include "mpact/sim/util/renode/socket_streambuf.h"
using mpact::sim::util::renode::SocketStreambuf;
static uint8_t g_out[64], g_in[16];
extern "C" int vf_close_server(int) { return 0; }
static void Open() {
  vf_sock = VfSock();
  vf_sock.fd = 7; vf_sock.open = 1;
  vf_sock.out = g_out; vf_sock.out_cap = sizeof(g_out);
  vf_sock.in = g_in;
}
static int Fill(uint8_t* c) {
  int n = vf_choose("n", 0, VF_N(6, 9));
  for (int i = 0; i < n; i++) c[i] = vf_u8("c");
  return n;
}
static int Expand(const uint8_t* c, int n, uint8_t* e) {
  int m = 0;
  for (int i = 0; i < n; i++) {
    if (c[i] == '\n') e[m++] = '\r';
    e[m++] = c[i];
  }
  return m;
}
VF_ENTRY(P35_write) {
  Open();
  uint8_t c[16], e[32];
  int how = vf_choose("how", 0, 2), n = Fill(c), m = Expand(c, n, e);
  vf_sock.write_chunk = vf_choose("chunk", 1, 2);
  vf_sock.eintr = vf_choose("interrupted", 0, 1);
  {
    SocketStreambuf buf(7);
    std::ostream os(&buf);
    if (how == 0) for (int i = 0; i < n; i++) os.put(static_cast<char>(c[i]));
    if (how == 1) os.write(reinterpret_cast<char*>(c), n);
    if (how == 2) os << std::string(reinterpret_cast<char*>(c), n);
    os.flush();
    vf_check(os.good(), "the stream stays good");
    vf_check(vf_sock.out_len == m, "number of characters sent");
    for (int i = 0; i < m; i++) vf_check(g_out[i] == e[i], "characters sent in order");
    vf_check(vf_sock.open, "the connection stays open");
  }
  vf_check(!vf_sock.open && !vf_sock.bad_close, "closed once with the stream");
}
VF_ENTRY(P35_write_fails) {
  Open();
  uint8_t c[16], e[32];
  int how = vf_choose("how", 0, 2), n = Fill(c), m = Expand(c, n, e);
  vf_sock.write_limit = vf_choose("limit", 0, VF_N(6, 9));
  if (vf_sock.write_limit >= m) vf_prune();
  SocketStreambuf buf(7);
  std::ostream os(&buf);
  if (how == 0) for (int i = 0; i < n; i++) os.put(static_cast<char>(c[i]));
  if (how == 1) os.write(reinterpret_cast<char*>(c), n);
  if (how == 2) os << std::string(reinterpret_cast<char*>(c), n);
  os.flush();
  vf_check(!os.good(), "a broken connection is reported");
  vf_check(vf_sock.out_len == vf_sock.write_limit, "what can be sent is sent");
  for (int i = 0; i < vf_sock.out_len; i++) vf_check(g_out[i] == e[i], "characters sent in order until it breaks");
}
VF_ENTRY(P35_read) {
  Open();
  int n = Fill(g_in);
  uint8_t e[16];
  int m = 0;
  for (int i = 0; i < n; i++) {
    if (g_in[i] == '\r') {
      vf_assume(i + 1 == n || g_in[i + 1] == '\n');
      continue;
    }
    e[m++] = g_in[i];
  }
  vf_sock.in_len = n;
  vf_sock.read_error = vf_bool("error");
  vf_sock.eintr = vf_choose("interrupted", 0, 1);
  int how = vf_choose("how", 0, 2);
  {
    SocketStreambuf buf(7);
    std::istream is(&buf);
    if (how == 2) {
      uint8_t got[16];
      is.read(reinterpret_cast<char*>(got), sizeof(got));
      vf_check(is.gcount() == m, "number of characters read");
      for (int i = 0; i < m; i++) vf_check(got[i] == e[i], "characters read in order");
    } else {
      for (int i = 0; i < m; i++) {
        if (how == 1) { vf_check(is.peek() == e[i], "character looked at"); vf_check(is.peek() == e[i], "looking does not consume"); }
        vf_check(is.get() == e[i], "character read");
        vf_check(is.good(), "the stream stays good");
      }
      vf_check(is.get() == std::char_traits<char>::eof(), "the end is reported");
    }
    vf_check(is.eof() || is.bad(), "the stream is at its end");
    vf_check(is.get() == std::char_traits<char>::eof(), "the end stays");
    vf_check(vf_sock.open, "the connection stays open");
  }
  vf_check(!vf_sock.open && !vf_sock.bad_close, "closed once with the stream");
}
VF_ENTRY(P35_read_any) {  // any carriage returns: one is dropped before each character it precedes
  Open();
  int n = Fill(g_in), m = 0;
  uint8_t e[16];
  for (int i = 0; i < n; i++) {
    if (g_in[i] == '\r' && ++i == n) break;
    e[m++] = g_in[i];
  }
  vf_sock.in_len = n;
  vf_sock.read_error = vf_bool("error");
  if (vf_choose("errno", 0, 1)) vf_sock.read_errno = EAGAIN;
  SocketStreambuf buf(7);
  std::istream is(&buf);
  for (int k = 0; k < m; k++) vf_check(is.get() == e[k], "the characters arrive in order");
  vf_check(is.get() == std::char_traits<char>::eof(), "then the end");
  vf_check(is.get() == std::char_traits<char>::eof(), "the end stays");
}
VF_ENTRY(P35_lines) {
  Open();
  int n = Fill(g_in);
  for (int i = 0; i < n; i++) if (g_in[i] == '\r') vf_assume(i + 1 < n && g_in[i + 1] == '\n');
  vf_sock.in_len = n;
  SocketStreambuf buf(7);
  std::istream is(&buf);
  std::string line;
  int pos = 0;
  while (pos < n) {
    vf_check(static_cast<bool>(std::getline(is, line)), "a line is left");
    size_t k = 0;
    for (; pos < n && g_in[pos] != '\n'; pos++) {
      if (g_in[pos] == '\r') continue;
      vf_check(k < line.size() && static_cast<uint8_t>(line[k]) == g_in[pos], "text of the line");
      k++;
    }
    vf_check(line.size() == k, "length of the line");
    pos++;
  }
  vf_check(!std::getline(is, line), "no line is left");
}
