// Histories on the graph classes, and networks built from problem data.
#include "serve.hpp"

#include "Constraintcomponent.hpp"
#include "Controlcomponent.hpp"
#include "Costcomponent.hpp"
#include "Edge.hpp"
#include "Equationcomponent.hpp"
#include "Full_factory.hpp"
#include "Net.hpp"
#include "Netfactory.hpp"
#include "Node.hpp"
#include "Statecomponent.hpp"

#include <memory>
#include <optional>
#include <set>

using verif::json;
using Network::Edge;
using Network::Net;
using Network::Node;

template <class T> static std::string kinds(T *c) {
  std::string s;
  s += dynamic_cast<Model::Equationcomponent *>(c) ? "e" : "";
  s += dynamic_cast<Model::Statecomponent *>(c) ? "s" : "";
  s += dynamic_cast<Model::Controlcomponent *>(c) ? "c" : "";
  s += dynamic_cast<Model::Costcomponent *>(c) ? "$" : "";
  s += dynamic_cast<Model::Constraintcomponent *>(c) ? "b" : "";
  return s;
}

template <class C> static json ids(C const &cs) {
  json a = json::array();
  for (auto *c : cs) {
    a.push_back(c->get_id());
  }
  return a;
}

// Everything that can be asked of a network, as ids.
static json describe(Net &net, json const &questions) {
  json r;
  Net const &cnet = net;
  std::set<Node const *> members;
  std::set<Edge const *> edge_members;
  json nodes = json::array(), edges = json::array();
  for (auto *n : net.get_nodes()) {
    members.insert(n);
    nodes.push_back(
        {{"id", n->get_id()},
         {"copy", n->get_id_copy()},
         {"start", ids(n->get_starting_edges())},
         {"end", ids(n->get_ending_edges())},
         {"kinds", kinds(n)},
         {"itself", net.get_node_by_id(n->get_id()) == n
                        and net.exists_node(n) == n}});
  }
  bool whole = true;
  for (auto *e : net.get_edges()) {
    edge_members.insert(e);
    auto *a = e->get_starting_node();
    auto *b = e->get_ending_node();
    whole = whole and members.count(a) and members.count(b);
    edges.push_back(
        {{"id", e->get_id()},
         {"from", a->get_id()},
         {"to", b->get_id()},
         {"kinds", kinds(e)},
         {"itself", net.get_edge_by_id(e->get_id()) == e}});
  }
  // attached edges are members of this very network
  for (auto *n : net.get_nodes()) {
    for (auto *e : n->get_starting_edges()) {
      whole = whole and edge_members.count(e) and e->get_starting_node() == n;
    }
    for (auto *e : n->get_ending_edges()) {
      whole = whole and edge_members.count(e) and e->get_ending_node() == n;
    }
  }
  r["nodes"] = nodes;
  r["edges"] = edges;
  r["whole"] = whole;
  r["const_nodes"] = ids(cnet.get_nodes());
  r["const_edges"] = ids(cnet.get_edges());
  r["valid_ids"] = net.get_valid_node_ids();
  json looked = json::array();
  for (auto const &id : questions) {
    auto *n = net.get_node_by_id(id.get<std::string>());
    auto *e = net.get_edge_by_id(id.get<std::string>());
    looked.push_back(json::array({n ? json(n->get_id()) : json(), e ? json(e->get_id()) : json()}));
  }
  r["looked"] = looked;
  json between = json::array();
  for (auto const &i : questions) {
    for (auto const &j : questions) {
      auto a = i.get<std::string>(), b = j.get<std::string>();
      auto *e = net.get_edge_by_node_ids(a, b);
      between.push_back(json::array(
          {net.exists_edge_between(a, b), e ? json(e->get_id()) : json()}));
    }
  }
  r["between"] = between;
  return r;
}

// -------------------------------------------------------------- histories
struct Pool {
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<std::unique_ptr<Edge>> edges;
};

static json history(json const &q) {
  std::vector<Pool> pools(q["pools"].get<size_t>());
  std::vector<std::unique_ptr<Net>> nets;
  std::map<std::string, Node *> nodes; // by handle
  std::map<std::string, Edge *> edges;
  json answers = json::array();
  for (auto const &op : q["ops"]) {
    std::string const k = op[0];
    json a;
    auto pool = [&](int i) -> Pool & { return pools[op[i].get<size_t>()]; };
    auto str = [&](int i) { return op[i].get<std::string>(); };
    auto num = [&](int i) { return op[i].get<size_t>(); };
    try {
      if (k == "node") { // pool handle id
        auto n = std::make_unique<Node>(json{{"id", op[3]}});
        nodes[str(2)] = n.get();
        pool(1).nodes.push_back(std::move(n));
      } else if (k == "edge") { // pool handle id from to edge-pool
        auto e = std::make_unique<Edge>(
            json{{"id", op[3]}, {"from", op[4]}, {"to", op[5]}},
            pool(1).nodes);
        edges[str(2)] = e.get();
        pool(6).edges.push_back(std::move(e));
      } else if (k == "swap_nodes") {
        std::swap(pool(1).nodes[num(2)], pool(1).nodes[num(3)]);
      } else if (k == "swap_edges") {
        std::swap(pool(1).edges[num(2)], pool(1).edges[num(3)]);
      } else if (k == "move_node") { // pool index pool
        pool(3).nodes.push_back(std::move(pool(1).nodes[num(2)]));
        pool(1).nodes.erase(pool(1).nodes.begin() + op[2].get<int>());
      } else if (k == "move_edge") {
        pool(3).edges.push_back(std::move(pool(1).edges[num(2)]));
        pool(1).edges.erase(pool(1).edges.begin() + op[2].get<int>());
      } else if (k == "detach") {
        a = nodes.at(str(1))->remove_edge(edges.at(str(2)));
      } else if (k == "attach_start") {
        a = nodes.at(str(1))->attach_starting_edge(edges.at(str(2)));
      } else if (k == "attach_end") {
        a = nodes.at(str(1))->attach_ending_edge(edges.at(str(2)));
      } else if (k == "lists") {
        auto *n = nodes.at(str(1));
        a = json::array({ids(n->get_starting_edges()), ids(n->get_ending_edges())});
      } else if (k == "ends") {
        auto *e = edges.at(str(1));
        a = json::array({e->get_starting_node()->get_id(), e->get_ending_node()->get_id()});
      } else if (k == "net") { // node pool, edge pool
        nets.push_back(nullptr);
        auto ns = std::move(pool(1).nodes);
        auto es = std::move(pool(2).edges);
        pool(1).nodes.clear();
        pool(2).edges.clear();
        nets.back() = std::make_unique<Net>(std::move(ns), std::move(es));
      } else if (k == "move_net") { // into a fresh object
        auto &n = nets[num(1)];
        n = std::make_unique<Net>(std::move(*n));
      } else if (k == "move_nets") { // through other places and back
        auto &n = nets[num(1)];
        std::vector<Net> v;
        v.push_back(std::move(*n));
        Net x = std::move(v.back());
        Net y(std::vector<std::unique_ptr<Node>>{},
              std::vector<std::unique_ptr<Edge>>{});
        y = std::move(x);
        *n = std::move(y);
      } else if (k == "swap_nets") {
        std::swap(*nets[num(1)], *nets[num(2)]);
      } else if (k == "foreign") { // net, node handle
        a = nets[num(1)]->exists_node(nodes.at(str(2))) != nullptr;
      } else if (k == "query") {
        a = describe(*nets[num(1)], op[2]);
      } else if (k == "drop_net") {
        nets[num(1)].reset();
      } else if (k == "drop_nodes") {
        pool(1).nodes.clear();
      } else if (k == "drop_edges") {
        pool(1).edges.clear();
      } else if (k == "drop_node") {
        pool(1).nodes.erase(pool(1).nodes.begin() + op[2].get<int>());
      } else if (k == "drop_edge") {
        pool(1).edges.erase(pool(1).edges.begin() + op[2].get<int>());
      } else {
        throw std::logic_error("unknown operation");
      }
    } catch (std::logic_error const &) {
      throw;
    } catch (std::exception const &e) {
      a = {{"error", std::string(e.what()).substr(0, 200)}};
    }
    answers.push_back(a);
  }
  return {{"answers", answers}};
}

static json handle(json const &q) {
  std::string const op = q["op"];
  if (op == "history") {
    return history(q);
  }
  if (op == "build") {
    json problem = q["net"];
    Model::Componentfactory::Full_factory factory(
        problem.value("defaults", json::object()));
    std::unique_ptr<Net> net;
    try {
      net = Model::build_net(problem, factory);
    } catch (std::exception const &e) {
      return {{"refused", std::string(e.what()).substr(0, 300)}};
    }
    json r = {{"first", describe(*net, q["questions"])}};
    Net moved(std::move(*net));
    net.reset();
    r["moved"] = describe(moved, q["questions"]);
    return r;
  }
  throw std::runtime_error("unknown op");
}

int main() { return verif::serve(handle); }
