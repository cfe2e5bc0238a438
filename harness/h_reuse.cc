// C18: the result of an operation does not depend on what the importer/exporter object did before.
// params: format (0 KDB, 1 KDBX), first operation, number of further operations (each any one), compressed, [fixed second operation + 1]
#include "kdbcmp.h"
#include "kdbxspec.h"
#include "kdb.hh"
#include "kdbx.hh"
using namespace keepass; using namespace kdbxspec;
static uint64_t P(int i) { return kp_param(i); }
struct Out { int err = 0; std::unique_ptr<Database> db; bool have = false; };
enum { IMPORT_A, IMPORT_B, IMPORT_DANGLING, IMPORT_BROKEN, IMPORT_WRONGKEY, IMPORT_SHORT, EXPORT_A, EXPORT_B, EXPORT_NOWHERE, IMPORT_MISSING, IMPORT_FOREIGN, OPS };
static Database g_a, g_b; static Key g_key, g_other;
static El *find(El &e, const char *name) { if (e.name == name) return &e; for (auto &k : e.kids) if (El *r = find(k, name)) return r; return nullptr; }
static Str seal_tree(El t, const Header &h, const gen::KeySpec &ks) { t.kids[0].kids[1].text = hash64(h); Masker m(h.pkey); mask(t, m); return build(h, ks, document(t)); }
template <class F> static Out run(F &f, int op) {
  Out o; o.have = true; auto imp = [&](const char *n, const Key &k) { o.db = f.Import(kp::path(n), k); kp_check(!!o.db, "no database"); };
  auto exp = [&](const Database &d) { f.Export(kp::path("x.db"), d, g_key); F fresh; o.db = fresh.Import(kp::path("x.db"), g_key); };
  try {
    switch (op) {
      case IMPORT_A: imp("a.db", g_key); break;
      case IMPORT_B: imp("b.db", g_key); break;
      case IMPORT_DANGLING: imp("d.db", g_key); break;
      case IMPORT_BROKEN: imp("e.db", g_key); break;
      case IMPORT_WRONGKEY: imp("c.db", g_other); break;
      case IMPORT_SHORT: imp("s.db", g_key); break;
      case EXPORT_A: exp(g_a); break;
      case EXPORT_B: exp(g_b); break;
      case EXPORT_NOWHERE: f.Export(kp::path("none/x.db"), g_a, g_key); break;
      case IMPORT_MISSING: imp("none.db", g_key); break;
      case IMPORT_FOREIGN: imp("f.db", g_key); break;
    }
  } catch (const FileNotFoundError &) { o.err = 1; } catch (const FormatError &) { o.err = 2; } catch (const PasswordError &) { o.err = 3; } catch (const IoError &) { o.err = 4; } catch (const InternalError &) { o.err = 5; }
  return o;
}
static void refs(const std::shared_ptr<Group> &a, const std::shared_ptr<Group> &b) {
  kp_check(!a == !b, "group reference present"); if (!a || !b) return;
  gen::same(a->uuid(), b->uuid(), "referred group"); gen::same(a->name(), b->name(), "referred group"); kp_check(a->Groups().size() == b->Groups().size() && a->Entries().size() == b->Entries().size(), "content of the referred group");
}
static void icons(const Group &a, const Group &b) {
  auto one = [](const std::shared_ptr<Icon> &x, const std::shared_ptr<Icon> &y) { kp_check(!x == !y, "icon present"); if (x && y) { gen::same(x->uuid(), y->uuid(), "icon id"); gen::same(x->data(), y->data(), "icon data"); } };
  one(a.custom_icon().lock(), b.custom_icon().lock()); auto u = a.last_visible_entry().lock(), v = b.last_visible_entry().lock(); kp_check(!u == !v, "last visible entry"); if (u && v) { gen::same(u->uuid(), v->uuid(), "last visible entry"); gen::same(*u->title(), *v->title(), "last visible entry"); }
  for (size_t i = 0; i < a.Entries().size() && i < b.Entries().size(); i++) one(a.Entries()[i]->custom_icon().lock(), b.Entries()[i]->custom_icon().lock());
  for (size_t i = 0; i < a.Groups().size() && i < b.Groups().size(); i++) icons(*a.Groups()[i], *b.Groups()[i]);
}
static void same(const Database &a, const Database &b, bool kdbx) {
  if (!kdbx) { kdbcmp::cmp_db(a, b); return; }
  gen::cmp_kdbx(a, b); icons(*a.root(), *b.root()); auto &m = *a.meta(), &n = *b.meta();
  refs(m.recycle_bin(), n.recycle_bin()); refs(m.entry_templates(), n.entry_templates()); refs(m.last_selected_group().lock(), n.last_selected_group().lock()); refs(m.last_visible_group().lock(), n.last_visible_group().lock());
}
template <class F> static void history(bool kdbx) {
  Out fresh[OPS]; F f; std::vector<Out> got; std::vector<int> ops;
  for (unsigned i = 0; i <= P(2); i++) {
    int op = i == 0 ? (int)P(1) : i == 1 && P(4) ? (int)P(4) - 1 : (int)kp_concretize(kp_choose(OPS, "operation"));
    if (!fresh[op].have) { F g; fresh[op] = run(g, op); }
    got.push_back(run(f, op)); ops.push_back(op);
  }
  for (size_t i = 0; i < got.size(); i++) {
    kp_check(got[i].err == fresh[ops[i]].err, "an operation ends differently with a used object");
    if (got[i].db && fresh[ops[i]].db) same(*fresh[ops[i]].db, *got[i].db, kdbx);
  }
  for (int op : {IMPORT_A, EXPORT_A}) if (fresh[op].have) same(g_a, *fresh[op].db, kdbx);
  for (int op : {IMPORT_B, EXPORT_B}) if (fresh[op].have) same(g_b, *fresh[op].db, kdbx);
  kp_reach("done");
}
extern "C" void kp_main() {
  kp_crypto_mode(0); bool kdbx = P(0);
  g_key.SetPassword("password"); g_other.SetPassword("Password"); gen::KeySpec ks; ks.has_pass = true; ks.pass = "password"; Str pa = kp::bytes(3, "pa"), pb = kp::bytes(4, "pb"); for (char c : pa + pb) kp_assume(c != 0);
  if (kdbx) {
    gen::Sel s; gen::fixed_params(g_a, P(3)); gen::lite(g_a, s); gen::fixed_params(g_b, !P(3)); gen::lite(g_b, s = gen::Sel());
    g_a.root()->Entries()[0]->set_password(protect<Str>(pa, true));
    auto &e = *g_b.root()->Entries()[0]; e.set_password(protect<Str>(pb, true)); e.set_title(gen::plain("other")); g_b.root()->set_name("other root"); g_b.root()->Groups()[0]->set_name("other A"); e.history()[0]->set_notes(gen::plain("other history"));
    std::array<uint8_t, 32> ik; for (int i = 0; i < 32; i++) ik[i] = (uint8_t)(99 - i); g_b.set_inner_random_stream_key(ik); g_b.meta()->binaries()[0]->set_data(protect<Str>("other binary", false)); g_b.meta()->AddBinary(std::make_shared<Binary>(protect<Str>("bin2", false)));
    Header ha = header_of(g_a), hb = header_of(g_b); kp::put("a.db", write_file(g_a, ks)); kp::put("b.db", write_file(g_b, ks)); { Database c; gen::fixed_params(c, P(3)); gen::lite(c, s = gen::Sel()); kp::put("c.db", write_file(c, ks)); }      // decrypting known bytes with a wrong key gives known bytes
    El d = tree(g_a); find(d, "Binaries")->kids.clear(); find(d, "CustomIcons")->kids.clear(); El &root = *find(d, "Root"); El &rg = root.kids[0]; for (size_t i = 0; i < rg.kids.size(); i++) if (rg.kids[i].name == "Group") rg.kids.erase(rg.kids.begin() + i--);
    kp::put("d.db", seal_tree(d, ha, ks));
    El e2 = tree(g_a); El *bin = find(*find(e2, "Binaries"), "Binary"); bin->text = "AAAA"; std::vector<El *> st{&e2}; El *last = nullptr; while (!st.empty()) { El *x = st.back(); st.pop_back(); if (x->name == "Group") for (auto &k : x->kids) if (k.name == "UUID") last = &k; for (auto &k : x->kids) st.push_back(&k); }
    last->text = "!!!!"; kp::put("e.db", seal_tree(e2, ha, ks));
    kp::put("f.db", kdbspec::n32(0x9aa2d903) + kdbspec::n32(0xb54bfb65) + Str(200, 1));
  } else {
    Database g_c; for (int w = 0; w < 3; w++) {
      Database &db = w == 2 ? g_c : w ? g_b : g_a; auto r = std::make_shared<Group>(); db.set_root(r); for (int i = 0; i < 2 + w; i++) { auto g = std::make_shared<Group>(); g->set_name(Str("g") + (char)('0' + i + 5 * w)); (i == 1 ? r->Groups()[0] : r)->AddGroup(g); auto e = std::make_shared<Entry>(); e->set_title(gen::plain(w == 2 ? Str("known") : w ? pb : pa)); e->set_icon(10 * i + w); auto at = std::make_shared<Entry::Attachment>(); at->set_name("at"); at->set_binary(std::make_shared<Binary>(gen::plain(w ? "xyz" : "data"))); if (i + w != 1) e->AddAttachment(at); g->AddEntry(e); }
      gen::fixed_params(db, false); db.set_master_seed(std::array<uint8_t, 16>{{1, (uint8_t)w, 3}});
    }
    KdbFile x; x.Export(kp::path("a.db"), g_a, g_key); KdbFile y; y.Export(kp::path("b.db"), g_b, g_key); KdbFile z; z.Export(kp::path("c.db"), g_c, g_key);
    kdbspec::Header h = kdbspec::stdheader(); h.ngroups = 2; h.nentries = 1; h.rounds = 1; Str rec = kdbspec::field(1, kdbspec::n32(1)) + kdbspec::field(2, Str("one\0", 4)) + kdbspec::field(8, kdbspec::n16(0)) + kdbspec::field(0xffff, "");
    kp::put("d.db", kdbspec::build(h, ks, rec + rec + kdbspec::field(2, kdbspec::n32(77)) + kdbspec::field(0xffff, ""))); kp::put("e.db", kdbspec::build(h, ks, rec + kdbspec::field(1, "x")));
    kp::put("f.db", Str("\x03\xd9\xa2\x9a\x67\xfb\x4b\xb5\0\0\3\0", 12) + Str(200, 1));
  }
  Str a = kp::get("c.db"); kp::put("s.db", a.substr(0, a.size() - 16));
  kdbx ? history<KdbxFile>(true) : history<KdbFile>(false);
}
