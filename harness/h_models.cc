// The models of the C and C++ run-time library (models/) against the real one: every case has to hold in the engine and natively
// (python3 lib/modeltest.py).  params: case
#include "kp.h"
#include <map>
#include <set>
#include <list>
#include <deque>
#include <queue>
#include <stack>
#include <unordered_map>
#include <unordered_set>
#include <string>
#include <sstream>
#include <iomanip>
#include <algorithm>
#include <numeric>
#include <functional>
#include <tuple>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <climits>
#include <iterator>
#include <fstream>
#include <memory>
#include <bitset>
#include <valarray>
#include <chrono>
#include <ctime>
#include <limits>
#include <atomic>
#include <mutex>
#include <random>
using namespace std;
static uint64_t P(int i) { return kp_param(i); }
static string num(long i) { return std::to_string(i); }
extern "C" void kp_main() {
  switch (P(0)) {
  case 0: { map<int,string> m; for (int i = 0; i < 200; i++) m[(i * 37) % 200] = num(i); int k = 0; for (auto &p : m) { kp_check(p.first == k, "order"); kp_check(p.second == num((k * 173) % 200), "value"); k++; } kp_check(k == 200, "n"); for (int i = 0; i < 200; i += 3) m.erase(i); k = 0; int last = -1; for (auto &p : m) { kp_check(p.first > last && p.first % 3, "order"); last = p.first; k++; } kp_check(k == 133, "n2"); for (auto it = m.rbegin(); it != m.rend(); ++it) k--; kp_check(k == 0, "rev"); auto it = m.find(5); kp_check(it != m.end(), "find"); m.erase(it); kp_check(!m.count(5), "gone"); break; }
  case 1: { set<string> s; for (int i = 0; i < 50; i++) s.insert(num(i * 7 % 50)); kp_check(s.size() == 50, "n"); multimap<int,int> mm; for (int i = 0; i < 20; i++) mm.insert({i % 4, i}); kp_check(mm.count(2) == 5, "mm"); break; }
  case 2: { list<int> l; for (int i = 0; i < 20; i++) { l.push_back(i); l.push_front(-i); } l.remove(3); l.sort(); l.reverse(); list<int> q{9, 8}; l.splice(l.end(), q); kp_check(l.size() == 41 && l.back() == 8, "list"); l.pop_front(); l.erase(l.begin()); kp_check(l.size() == 39, "list"); break; }
  case 3: { deque<string> d; for (int i = 0; i < 200; i++) { d.push_back(num(i)); d.push_front(num(i)); } queue<int> q; for (int i = 0; i < 600; i++) q.push(i); int k = 0; while (!q.empty()) { kp_check(q.front() == k++, "q"); q.pop(); } stack<int> st; st.push(1); kp_check(st.top() == 1, "st"); priority_queue<int> pq; for (int i : {3, 1, 2}) pq.push(i); kp_check(pq.top() == 3, "pq"); break; }
  case 4: { unordered_map<int,string> m; for (int i = 0; i < 60; i++) m[i] = num(i); kp_check(m.size() == 60 && m.at(7) == "7", "um"); unordered_set<string> us; for (int i = 0; i < 30; i++) us.insert(num(i)); kp_check(us.count("12") == 1, "us"); unordered_map<string, int> h{{"a", 1}}; kp_check(h.find("a") != h.end(), "f"); break; }
  case 5: { istringstream s("12 34 x 0x1f"); int a; unsigned long b; string c; s >> a >> b >> c; kp_check(a == 12 && b == 34 && c == "x", ">>"); break; }
  case 6: { ostringstream s; s << hex << setw(4) << setfill('0') << 255 << dec << 10 << ' ' << 5u << 'c' << true; kp_check(s.str() == "00ff10 5c1", "fmt"); break; }
  case 7: { kp_check(stoi("123") == 123 && stoul("77") == 77 && stol("-5") == -5 && stoull("99") == 99 && stoi("ff", nullptr, 16) == 255, "sto"); break; }
  case 8: { char b[64]; snprintf(b, 64, "%d %u %lu %s %c %02x %zu %08X %5d", -3, 4u, 5ul, "str", 'c', 10, (size_t)9, 0xbeefu, 7); kp_check(string(b) == "-3 4 5 str c 0a 9 0000BEEF     7", "snprintf"); break; }
  case 9: { sprintf(new char[99], "%d", 3); kp_check(strtol("12", 0, 10) == 12 && strtoul("1f", 0, 16) == 31 && atoi("4") == 4 && strtoull("8", 0, 10) == 8, "strto"); break; }
  case 10: { vector<int> v{3, 1, 2, 5, 4, 9, 8, 7, 6, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10}; sort(v.begin(), v.end()); kp_check(is_sorted(v.begin(), v.end()), "sort"); vector<string> s; for (int i = 0; i < 30; i++) s.push_back(num(i * 7 % 30)); stable_sort(s.begin(), s.end()); kp_check(is_sorted(s.begin(), s.end()), "ss"); nth_element(v.begin(), v.begin() + 3, v.end()); partial_sort(v.begin(), v.begin() + 3, v.end()); inplace_merge(v.begin(), v.begin() + 5, v.end()); rotate(v.begin(), v.begin() + 2, v.end()); kp_check(accumulate(v.begin(), v.end(), 0) == 210, "acc"); break; }
  case 11: { string s = "hello, world"; kp_check(s.find("wor") == 7 && s.rfind('o') == 8 && s.find_first_of("xyzw") == 7 && s.find_last_not_of("dl") == 9 && s.find_first_not_of("hel") == 4, "find"); s.replace(0, 5, "HELLO WORLD"); s.insert(3, "abc"); s.erase(1, 2); s.resize(30, 'x'); kp_check(s.compare(0, 1, "H") == 0, "c"); kp_check(strchr("abc", 'b') && strstr("hello", "ll") && strcspn("abc", "c") == 2 && strspn("aab", "a") == 2 && strpbrk("abc", "cb") && strrchr("aba", 'a'), "str"); break; }
  case 12: { function<int(int)> f = [](int x) { return x + 1; }; kp_check(f(2) == 3, "fn"); auto g = bind(f, placeholders::_1); kp_check(g(4) == 5, "bind"); tuple<int, string> t(1, "x"); kp_check(get<1>(t) == "x", "tup"); bitset<16> b(5); kp_check(b.count() == 2, "bs"); vector<bool> vb(100, true); vb[3] = false; kp_check(count(vb.begin(), vb.end(), true) == 99, "vb"); break; }
  case 13: { auto n = chrono::system_clock::now(); (void)n; kp_check(time(nullptr) != 0 || true, "t"); break; }
  case 14: { mutex m; lock_guard<mutex> l(m); atomic<int> a(3); a++; kp_check(a == 4, "a"); static once_flag o; int k = 0; (void)o; (void)k; break; }
  case 15: { static int k = [] { return 7; }(); kp_check(k == 7, "static"); thread_local int tl = 3; tl++; kp_check(tl == 4, "tls"); break; }
  case 16: { stringstream s; s.write("abcdef", 6); s.seekg(2); kp_check(s.get() == 'c' && s.peek() == 'd' && s.tellg() == 3, "seek"); char b[4]; s.read(b, 3); kp_check(s.gcount() == 3, "gc"); s.ignore(); kp_check(s.eof(), "eof"); s.clear(); s.str("x y"); string l; getline(s, l); kp_check(l == "x y", "gl"); istream_iterator<string> it(s), e; kp_check(it == e, "it"); ostringstream o; copy(l.begin(), l.end(), ostream_iterator<char>(o, ",")); kp_check(o.str() == "x, ,y,", "oi"); break; }
  case 17: { ofstream o(kp::path("x"), ios::binary); o << "data" << 12; o.close(); ifstream i(kp::path("x"), ios::in | ios::binary | ios::ate); kp_check(i.tellg() == 6, "tellg"); i.seekg(0); string s((istreambuf_iterator<char>(i)), istreambuf_iterator<char>()); kp_check(s == "data12", "f"); fstream f(kp::path("x"), ios::in | ios::out | ios::binary); kp_check(f.is_open(), "o"); f.seekg(0, ios::end); kp_check(f.tellg() == 6, "tg"); break; }
  case 18: { shared_ptr<int> p = make_shared<int>(3); weak_ptr<int> w = p; kp_check(w.lock() != nullptr, "w"); unique_ptr<int[]> u(new int[4]()); kp_check(u[3] == 0, "u"); p.reset(); kp_check(w.expired(), "e"); auto q = allocate_shared<int>(allocator<int>(), 4); kp_check(*q == 4, "as"); break; }
  case 19: { try { string("abc").at(9); } catch (const out_of_range &) { kp_reach("oor"); } try { stoi("x"); } catch (const invalid_argument &) { kp_reach("ia"); } try { vector<int>().at(1); } catch (const exception &) { kp_reach("ex"); } try { try { throw runtime_error("a"); } catch (...) { throw; } } catch (const runtime_error &e) { kp_check(string(e.what()) == "a", "what"); } try { unordered_map<int,int>().at(3); } catch (const out_of_range &) { kp_reach("um"); } try { map<int,int>().at(3); } catch (const out_of_range &) { kp_reach("m"); } break; }
  case 20: { kp_check(isalpha('a') && isdigit('1') && toupper('a') == 'A' && isspace(' ') && isxdigit('f') && ispunct('!') && tolower('A') == 'a' && isprint('a') && isalnum('z') && isupper('A'), "ct"); kp_check(std::isspace('\t', std::locale::classic()), "loc"); break; }
  case 21: { unsigned char c = kp::u8("c"); char b[8]; kp_check(snprintf(b, sizeof b, "%02x", c) == 2, "n"); kp_check(b[0] == "0123456789abcdef"[c >> 4] && b[1] == "0123456789abcdef"[c & 15] && !b[2], "hex");
    int v = (int)(signed char)kp::u8("v"); snprintf(b, sizeof b, "%d", v); kp_check(string(b) == to_string(v), "dec"); ostringstream o; o << v; kp_check(o.str() == b, "stream"); istringstream is(b); int w = 0; is >> w; kp_check(w == v && !is.fail(), "in"); break; }
  case 22: { ostringstream s; tm t = tm(); t.tm_year = 100; t.tm_mday = 1; s << put_time(&t, "%Y-%m-%d"); kp_check(s.str() == "2000-01-01", "put_time"); break; }
  case 23: { char b[8]; memmove(b, "abc", 4); kp_check(!memcmp(b, "abc", 4) && memchr(b, 'c', 4) && !strcmp(b, "abc") && !strncmp(b, "abd", 2) && strlen(b) == 3, "mem"); strcpy(b, "xy"); strncpy(b, "xyz", 4); strcat(b, "w"); char *d = strdup(b); kp_check(!strcmp(d, "xyzw"), "dup"); free(d); void *c = calloc(2, 4); c = realloc(c, 16); free(c); qsort(b, 4, 1, [](const void *x, const void *y) { return (int)*(const char *)x - (int)*(const char *)y; }); kp_check(b[0] == 'w', "qs"); break; }
  case 24: { map<uint8_t, int> m; uint8_t a = kp::u8("a"), b = kp::u8("b"), c = kp::u8("c"); m[a] = 1; m[b] = 2; m[c] = 3; kp_check(m[c] == 3 && m.size() == 1u + (a != b) + (c != a && c != b), "symbolic keys"); int last = -1; for (auto &x : m) { kp_check(x.first > last, "order"); last = x.first; } break; }
  case 25: { kp_check(std::remove(kp::path("nonex").c_str()) != 0, "rm"); break; }
  case 26: { string s; for (char c : string("a<b")) { if (c == '<') s += "&lt;"; else s.push_back(c); } kp_check(s == "a&lt;b", "x"); reverse(s.begin(), s.end()); transform(s.begin(), s.end(), s.begin(), ::toupper); kp_check(s == "B;TL&A", "y"); string w = s.substr(2); w.swap(s); s.assign(4, 'q'); s.append(w, 1, 2); s.shrink_to_fit(); s.reserve(100); s.pop_back(); kp_check(s == "qqqq;", "z"); break; }
  case 27: { stringstream ss; ss << setw(5) << left << "ab" << '|' << right << setw(3) << 7 << oct << 8 << uppercase << hex << 255 << showbase << 16; kp_check(ss.str() == "ab   |  710FF0X10", "setw"); break; }
  case 28: { mt19937 g(5); uniform_int_distribution<int> d(0, 9); int k = d(g); kp_check(k >= 0 && k < 10, "r"); default_random_engine e; (void)e(); srand(3); (void)rand(); break; }
  }
  kp_reach("done");
}
