#pragma once
#include "gen_node.hpp"

inline std::map<std::string, Profile> make_profiles() {
  const std::vector<int> BUF = {K_SINGLE, K_DOUBLE, K_PROBE_SINGLE, K_PROBE_DOUBLE, K_POLY}, BOTH = {P_WEAK, P_ANY};
  std::map<std::string, Profile> r;
  auto add = [&](Profile p) { r[p.name] = p; };
  {
    Profile p;
    p.name = "C01", p.kinds = BUF, p.policies = BOTH;
    p.weights = {{OP_CALL, 10}, {OP_PUT, 5}, {OP_READ, 4}, {OP_READBUF, 2}, {OP_GET, 2}, {OP_COLLECT, 8}, {OP_WRITE, 2},
                 {OP_WRITEBUF, 1}, {OP_PROCESS, 3}, {OP_PROCBUF, 2}, {OP_SIZES, 0.2}, {OP_SOAK, 0.02}};
    p.garbage = p.unknown = p.damage = 0;
    add(p);
    p.name = "C01p", p.kinds = {K_PLAIN};
    p.weights = {{OP_CALL, 10}, {OP_DISPATCH, 12}};
    p.stall = 0;
    add(p);
  }
  {
    Profile p;
    p.name = "C02", p.kinds = {K_DOUBLE}, p.policies = {P_WEAK};
    p.weights = {{OP_FEED, 8}, {OP_CALL, 4}, {OP_PUT, 5}, {OP_READ, 4}, {OP_READBUF, 2}, {OP_GET, 2}, {OP_COLLECT, 7},
                 {OP_WRITE, 2}, {OP_PROCESS, 3}, {OP_PROCBUF, 2}, {OP_ACTION, 2}};
    p.garbage = 0.15, p.unknown = 0.05, p.damage = 0.1, p.nest_replace = false;
    add(p);
    p.name = "C02p", p.kinds = {K_PLAIN};
    p.weights = {{OP_FEED, 8}, {OP_CALL, 4}, {OP_DISPATCH, 12}, {OP_ACTION, 2}, {OP_LOOKUP, 1}};
    p.stall = 0;
    add(p);
  }
  {
    Profile p;
    p.name = "C03", p.kinds = BUF, p.policies = BOTH;
    p.weights = {{OP_FEED, 10}, {OP_PUT, 10}, {OP_READ, 7}, {OP_READBUF, 3}, {OP_PROCESS, 2}, {OP_PROCBUF, 1}, {OP_GET, 3},
                 {OP_WRITE, 3}, {OP_DROPIN, 0.3}, {OP_SOAK, 0.02}};
    p.garbage = 0.3, p.unknown = 0.15, p.damage = 0.35, p.strict = 0.5, p.stall = 0.5;
    add(p);
  }
  {
    Profile p;
    p.name = "C04", p.kinds = BUF, p.policies = BOTH;
    p.weights = {{OP_FEED, 8}, {OP_PUT, 7}, {OP_READ, 3}, {OP_READBUF, 1}, {OP_PROCESS, 3}, {OP_PROCBUF, 2}, {OP_GET, 10},
                 {OP_WRITE, 3}, {OP_WRITEBUF, 3}, {OP_SOAK, 0.02}};
    p.sinkf = 0.15;
    add(p);
  }
  {
    Profile p;
    p.name = "C05", p.kinds = {K_DOUBLE, K_DOUBLE, K_PROBE_DOUBLE, K_POLY}, p.policies = BOTH;
    p.weights = {{OP_FEED, 6}, {OP_ISR, 14}, {OP_PUT, 6}, {OP_READ, 1}, {OP_GET, 3}, {OP_WRITE, 1}};
    p.unknown = 0.2, p.damage = 0.1, p.duplex = true, p.isr = true, p.stall = 0.7, p.nest = 0.3;
    p.flavours = {"isr", "step"};
    add(p);
  }
  {
    Profile p;
    p.name = "C06", p.kinds = {K_PROBE_SINGLE, K_PROBE_DOUBLE, K_POLY, K_SINGLE, K_DOUBLE}, p.policies = BOTH;
    p.weights = {{OP_FEED, 8}, {OP_CALL, 5}, {OP_PUT, 8}, {OP_READ, 3}, {OP_READBUF, 3}, {OP_PROCESS, 2}, {OP_PROCBUF, 3},
                 {OP_GET, 6}, {OP_WRITE, 2}, {OP_WRITEBUF, 3}, {OP_SIZES, 1}, {OP_ACTION, 2}, {OP_COLLECT, 2}, {OP_SOAK, 0.02}};
    p.garbage = 0.15, p.damage = 0.2, p.ext = 0.05, p.cbt = 0.05, p.srcf = 0.05, p.sinkf = 0.05, p.strict = 0.6;
    add(p);
    p.name = "C06p", p.kinds = {K_PLAIN};
    p.weights = {{OP_FEED, 8}, {OP_CALL, 5}, {OP_DISPATCH, 12}, {OP_SIZES, 1}, {OP_ACTION, 2}, {OP_LOOKUP, 1}};
    add(p);
  }
  {
    Profile p;
    p.name = "C07", p.kinds = {K_SINGLE, K_DOUBLE, K_PROBE_SINGLE, K_PROBE_DOUBLE, K_POLY}, p.policies = BOTH;
    p.weights = {{OP_FEED, 8}, {OP_PUT, 7}, {OP_READ, 6}, {OP_PROCESS, 6}, {OP_GET, 3}, {OP_WRITE, 6}, {OP_WRITEBUF, 1},
                 {OP_ACTION, 1}, {OP_READBUF, 2}, {OP_PROCBUF, 1}, {OP_SOAK, 0.02}};
    p.cbt = 0.25, p.ext = 0.25, p.srcf = 0.3, p.sinkf = 0.3, p.stall = 0.6, p.unknown = 0.08;
    add(p);
    p.name = "C07p", p.kinds = {K_PLAIN};
    p.weights = {{OP_FEED, 8}, {OP_DISPATCH, 12}, {OP_ACTION, 3}, {OP_LOOKUP, 2}};
    add(p);
  }
  {
    Profile p;
    p.name = "C08", p.kinds = {K_SINGLE, K_DOUBLE, K_PROBE_DOUBLE, K_POLY}, p.policies = {P_ANY, P_ANY, P_ANY, P_WEAK};
    p.weights = {{OP_FEED, 8}, {OP_PUT, 8}, {OP_READ, 3}, {OP_PROCESS, 2}, {OP_COLLECT, 4}, {OP_WRITE, 1}, {OP_REPLACE, 10},
                 {OP_ACTION, 2}, {OP_RELOCATE, 0.7}, {OP_EXCHANGE, 0.5}, {OP_ASSIGN, 0.5}, {OP_DESTROY, 0.3}, {OP_CREATE, 1}};
    p.allocf = 0.15, p.copyf = 0.15, p.cbt = 0.05;
    p.keyed_only = true;
    p.nest = 0.2;
    add(p);
    p.name = "C08p", p.kinds = {K_PLAIN};
    p.weights = {{OP_FEED, 8}, {OP_DISPATCH, 9}, {OP_REPLACE, 8}, {OP_ACTION, 2}, {OP_RELOCATE, 0.7}, {OP_EXCHANGE, 0.5},
                 {OP_ASSIGN, 0.5}, {OP_DESTROY, 0.3}, {OP_CREATE, 1}};
    add(p);
  }
  {
    Profile p;
    p.name = "C09", p.kinds = BUF, p.policies = BOTH;
    p.weights = {{OP_FEED, 8}, {OP_PUT, 9}, {OP_READ, 2}, {OP_PROCESS, 1}, {OP_GET, 5}, {OP_WRITE, 1}, {OP_RELOCATE, 5},
                 {OP_ASSIGN, 4}, {OP_EXCHANGE, 3}, {OP_FORK, 4}, {OP_DESTROY, 0.5}, {OP_CREATE, 3}, {OP_REPLACE, 2}, {OP_SOAK, 0.02}};
    p.unknown = 0.08;
    add(p);
    p.name = "C09p", p.kinds = {K_PLAIN};
    p.weights = {{OP_FEED, 8}, {OP_DISPATCH, 9}, {OP_RELOCATE, 4}, {OP_ASSIGN, 3}, {OP_EXCHANGE, 2}, {OP_FORK, 3},
                 {OP_CREATE, 3}, {OP_REPLACE, 3}};
    add(p);
  }
  {
    Profile p;
    p.name = "C10", p.kinds = BUF, p.policies = BOTH;
    p.weights = {{OP_FEED, 9}, {OP_PUT, 9}, {OP_READ, 3}, {OP_GET, 2}, {OP_REPLY, 10}, {OP_COLLECT, 3}, {OP_WRITE, 1.5},
                 {OP_REPLACE, 0.5}};
    p.target = true;
    p.unknown = 0.08;
    p.poison3 = true;
    add(p);
  }
  {
    Profile p;
    p.name = "C11", p.kinds = BUF, p.policies = BOTH;
    p.weights = {{OP_FEED, 8}, {OP_PUT, 8}, {OP_READ, 3}, {OP_PROCESS, 2}, {OP_RESYNC, 3}, {OP_CALL, 5}, {OP_COLLECT, 5},
                 {OP_WRITE, 2}, {OP_GET, 2}, {OP_DESTROY, 0.4}, {OP_CREATE, 2}, {OP_DROPIN, 1}, {OP_SOAK, 0.02}};
    p.garbage = 0.3, p.unknown = 0.1, p.damage = 0.5, p.strict = 0.6, p.ext = 0.05, p.cbt = 0.05, p.srcf = 0.1, p.sinkf = 0.1;
    add(p);
  }
  {
    Profile p;
    p.name = "C12", p.kinds = {K_PLAIN}, p.policies = BOTH;
    p.weights = {{OP_FEED, 6}, {OP_CALL, 3}, {OP_DISPATCH, 12}, {OP_LOOKUP, 3}, {OP_ACTION, 5}, {OP_DROPIN, 0.3}};
    p.garbage = 0.15, p.unknown = 0.15, p.damage = 0.15, p.srcf = 0.1, p.sinkf = 0.1, p.cbt = 0.05, p.ext = 0.05;
    add(p);
  }
  {
    Profile p;
    p.name = "C17", p.kinds = BUF, p.policies = BOTH;
    p.weights = {{OP_FEED, 8}, {OP_CALL, 4}, {OP_PUT, 8}, {OP_READ, 3}, {OP_PROCESS, 2}, {OP_PROCBUF, 1}, {OP_GET, 3},
                 {OP_WRITE, 3}, {OP_WRITEBUF, 2}, {OP_REPLY, 6}, {OP_COLLECT, 4}, {OP_ACTION, 2}, {OP_RELOCATE, 1},
                 {OP_FORK, 1}, {OP_ASSIGN, 1}, {OP_EXCHANGE, 0.5}, {OP_REPLACE, 1}};
    p.target = true, p.poison3 = true, p.cbt = 0.03, p.max_ops = 40;
    add(p);
  }
  {
    Profile p;
    p.name = "C18", p.kinds = BUF, p.policies = BOTH;
    p.weights = {{OP_FEED, 8}, {OP_CALL, 4}, {OP_PUT, 8}, {OP_READ, 3}, {OP_READBUF, 1}, {OP_PROCESS, 2}, {OP_PROCBUF, 1},
                 {OP_GET, 3}, {OP_WRITE, 2}, {OP_WRITEBUF, 2}, {OP_REPLY, 3}, {OP_COLLECT, 4}, {OP_ACTION, 2},
                 {OP_RELOCATE, 1}, {OP_FORK, 1}, {OP_ASSIGN, 1}, {OP_EXCHANGE, 0.5}, {OP_REPLACE, 3}, {OP_CREATE, 1},
                 {OP_DESTROY, 0.3}, {OP_SOAK, 0.02}};
    p.target = true, p.watch_alloc = true, p.ext = 0.05, p.cbt = 0.05, p.srcf = 0.05, p.sinkf = 0.05, p.unknown = 0.08, p.garbage = 0.08;
    add(p);
    p.name = "C18p", p.kinds = {K_PLAIN};
    p.weights = {{OP_FEED, 8}, {OP_CALL, 4}, {OP_DISPATCH, 10}, {OP_LOOKUP, 2}, {OP_ACTION, 3}, {OP_REPLACE, 3},
                 {OP_RELOCATE, 1}, {OP_FORK, 1}, {OP_ASSIGN, 1}, {OP_CREATE, 1}};
    p.target = false;
    add(p);
  }
  return r;
}
