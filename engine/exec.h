#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <chrono>

struct Cell { Expr* e; uint32_t ix; };   // byte ix of e; e==nullptr: uninitialised

typedef std::vector<uint32_t> VC;

enum { NT = 16 };
// Per byte and thread, the clock of the last access made on every path merged into the
// state (0 = none); cond: accesses that were made under a condition only.
struct Race {
  std::vector<std::array<uint32_t, NT>> rd, wr;
  std::map<uint64_t, std::vector<std::pair<uint32_t, Expr*>>> cond;   // key: (byte * NT + thread) * 2 + write
};

struct Obj {
  uint64_t base, size; std::vector<Cell> cells; bool constant = false; char kind = 'h';  // h heap, s stack, g global, t tls
  std::string name; std::shared_ptr<Race> race;
};

struct FnInfo {
  llvm::Function* f; std::unordered_map<const llvm::Value*, unsigned> num; unsigned nregs = 0;
  std::unordered_map<const llvm::BasicBlock*, const llvm::BasicBlock*> ipdom;  // nullptr = function exit
  std::set<const llvm::BasicBlock*> reachRet;
  std::set<const llvm::BasicBlock*> seen;
  bool noMerge = false;
};

struct Frame {
  FnInfo* fi; std::vector<Expr*> regs; const llvm::BasicBlock* bb; const llvm::Instruction* pc; std::vector<uint64_t> allocas;
  std::map<const llvm::Value*, uint64_t> varargs;
};

enum class TS { Run, Mutex, Cond, Futex, Join, Done };
struct Thread {
  std::vector<std::shared_ptr<Frame>> st; TS status = TS::Run; uint64_t waitAddr = 0, waitMutex = 0; uint32_t futexVal = 0; bool timed = false;
  int condPhase = 0; // 0 none, 1 notified, 2 timed out
  bool schedSkip = false; VC vc; std::vector<uint64_t> caught; std::map<const llvm::GlobalVariable*, uint64_t> tls; uint64_t errnoAddr = 0;
};
struct ExcInfo { uint64_t tinfo, dtor; int handlers; int refs; bool operator==(ExcInfo const& o) const { return tinfo == o.tinfo && dtor == o.dtor && handlers == o.handlers && refs == o.refs; } };

struct State {
  std::vector<Thread> th; int cur = 0;
  std::map<uint64_t, std::shared_ptr<Obj>> mem;
  std::vector<Expr*> pc; std::shared_ptr<Assignment> model;  // model may be null: unknown
  std::vector<std::pair<std::string, Expr*>> obs;
  std::map<std::string, unsigned> symCount;
  std::map<uint64_t, ExcInfo> exc;
  std::map<uint64_t, int> mutexOwner; std::map<uint64_t, VC> syncVC;
  std::map<uint64_t, int> onceState;
  unsigned schedCount = 0, preemptions = 0, timeouts = 0, futexTimeouts = 0; std::vector<int> sched;
  bool merge = true, lazyMerge = false; uint64_t steps = 0; unsigned long long forkDepth = 0;
  bool retFlag = false;
  std::unordered_map<Expr*, bool> facts; std::vector<Expr*> factPc, clauses;   // what the path condition tells (lazy merging only)
  bool explore = false; int preemptBound = 0, timeoutBound = 0; bool yieldOnUnlock = true;
  std::map<uint64_t, uint64_t> exitHandlers;
};

struct Violation { std::string kind, msg, loc; std::map<std::string, std::pair<u128, unsigned>> inputs; std::vector<int> sched; bool checked; std::string known; };
