// Exhaustive over all ordered trees with up to N nodes and 0..2 mutations per
// node: the real MutationTreeNode::TidyUp against the stated contract.
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "libdredd/mutation.h"
#include "libdredd/mutation_tree_node.h"
using namespace dredd;
namespace {
struct Mut : Mutation {
  int id;
  explicit Mut(int i) : id(i) {}
  ~Mut() override;
  protobufs::MutationGroup Apply(clang::ASTContext&, const clang::Preprocessor&, const Options&, int, int&, clang::Rewriter&, std::unordered_set<std::string>&) const override { abort(); }
};
Mut::~Mut() = default;
long count = 0, failures = 0;
struct Shape { std::vector<int> parent, muts; };
std::unique_ptr<MutationTreeNode> build(const Shape& s, int n, int& id) {
  auto r = std::make_unique<MutationTreeNode>();
  for (int k = n + 1; k < (int)s.parent.size(); k++) if (s.parent[k] == n) r->AddChild(build(s, k, id));
  for (int i = 0; i < s.muts[n]; i++) r->AddMutation(std::make_unique<Mut>(id++));
  return r;
}
struct Obs { std::vector<int> post; std::map<int, std::vector<int>> anc; };
void walk(const MutationTreeNode& n, std::vector<std::vector<int>>& above, Obs& o) {
  std::vector<int> own;
  for (const auto& m : n.GetMutations()) own.push_back(m ? static_cast<const Mut*>(m.get())->id : -1);
  above.push_back(own);
  for (const auto* c : n.GetChildren()) walk(*c, above, o);
  above.pop_back();
  for (int m : own) {
    o.post.push_back(m);
    for (const auto& a : above) for (int x : a) o.anc[m].push_back(x);
  }
}
Obs observe(const MutationTreeNode& n) { Obs o; std::vector<std::vector<int>> a; walk(n, a, o); return o; }
bool tidy(const MutationTreeNode& n, bool root, std::string& why) {
  auto cs = n.GetChildren();
  if (!root && n.GetMutations().empty() && cs.empty()) { why = "an empty subtree remains"; return false; }
  if (n.GetMutations().empty() && cs.size() == 1) { why = "an empty node with one child remains"; return false; }
  for (const auto* c : cs) if (!tidy(*c, false, why)) return false;
  return true;
}
void check(const Shape& s) {
  int id = 0; auto r = build(s, 0, id);
  Obs before = observe(*r); r->TidyUp(); Obs after = observe(*r);
  std::string why; count++;
  if (before.post != after.post) why = "mutations lost, duplicated or reordered";
  else if (before.anc != after.anc) why = "a mutation lies under other mutations than before";
  else tidy(*r, true, why);
  if (!why.empty() && failures++ < 5) {
    printf("FAIL %s: parents", why.c_str());
    for (int p : s.parent) printf(" %d", p);
    printf(" mutations");
    for (int m : s.muts) printf(" %d", m);
    printf("\n");
  }
}
void grow(Shape& s, std::vector<int>& path, int n, int maxm) {
  if (n == 0) { check(s); return; }
  // the next node in pre-order is the child of any node on the rightmost path
  auto saved = path;
  for (int d = (int)saved.size(); d >= 1; d--) {
    path.assign(saved.begin(), saved.begin() + d);
    int me = (int)s.parent.size();
    for (int m = 0; m <= maxm; m++) {
      s.parent.push_back(saved[d - 1]); s.muts.push_back(m); path.push_back(me);
      grow(s, path, n - 1, maxm);
      s.parent.pop_back(); s.muts.pop_back(); path.pop_back();
    }
  }
  path = saved;
}
}
int main(int argc, char** argv) {
  int N2 = atoi(argv[1]), N1 = atoi(argv[2]);
  for (int n = 1; n <= N2; n++) for (int m = 0; m <= 2; m++) { Shape s{{-1}, {m}}; std::vector<int> p{0}; grow(s, p, n - 1, 2); }
  for (int n = N2 + 1; n <= N1; n++) for (int m = 0; m <= 1; m++) { Shape s{{-1}, {m}}; std::vector<int> p{0}; grow(s, p, n - 1, 1); }
  printf("CHECKED %ld\n", count);
  return failures ? 1 : 0;
}
