#pragma once
#include "solver.h"
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <set>

struct Cell { E e; uint32_t i; };
enum ObjKind : uint8_t { OGLOBAL, OSTACK, OHEAP, OFUNC, OTLS };
struct Obj {
  uint64_t size = 0;
  ObjKind kind = OHEAP;
  bool alive = true, ro = false;
  uint8_t alloc = 0;  // 0 malloc, 1 new, 2 new[]
  llvm::Function* fn = nullptr;
  std::string name;
  std::vector<uint8_t> st, d;
  std::vector<Cell> sym;
};

struct DOp { int reg; E c; };  // reg<0: constant c (nullptr: undef of width w)
struct DI {
  llvm::Instruction* I = nullptr;
  unsigned opc = 0;
  unsigned w = 0;       // result width
  int dst = -1;
  std::vector<DOp> ops;
  std::vector<unsigned> opw;
  // extras
  std::vector<std::pair<unsigned, int64_t>> gep;  // (operand, scale)
  int64_t off = 0;
  int t1 = -1, t2 = -1; // successor block index
  unsigned lanes = 0, ew = 0, pred = 0, bytes = 0;
  struct Fn* callee = nullptr;
  llvm::Function* calleeF = nullptr;
  std::vector<int> mask;
  std::vector<std::pair<u256, int>> cases;
};
struct Phi { int dst; unsigned w; std::map<int, DOp> in; };
struct BB { std::vector<Phi> phis; int first = 0; };
struct Fn {
  llvm::Function* F = nullptr;
  int nregs = 0;
  std::vector<DI> code;
  std::vector<BB> bbs;
  std::string name;
  bool decoded = false;
};
struct Frame {
  Fn* f;
  std::vector<E> r;
  int ip = 0, bb = 0, prev = -1;
  std::vector<uint32_t> allocas;
  std::vector<E> varargs;
  int retTo = -1;        // caller's DI index (call/invoke), in the caller frame
  int hook = 0;          // engine hook to run on return (see onReturn)
  uint64_t hookArg = 0;
};
typedef std::vector<uint32_t> VC;
struct Team;
struct Thread {
  int id = 0;
  std::string label = "t0";  // prefix of the names of this thread's inputs
  std::vector<Frame> st;
  enum { RUN, WAIT, JOIN, BLOCK, DONE } s = RUN;
  int joinOn = -1;
  std::map<std::string, int> counters;
  std::map<llvm::GlobalVariable*, uint64_t> tls;
  // exceptions
  uint64_t exc = 0; // current in-flight exception object
  std::vector<uint64_t> caught;
  // OpenMP
  Team* team = nullptr;
  int tnum = 0;
  std::vector<std::pair<Team*, int>> teamStack;
  std::map<int, int> workerOf;
  int wsCount = 0;       // number of worksharing loops entered in the team
  int loopIdx = -1;
  int64_t curIter = -1, curHi = -1;
  bool orderedDone = false;
  std::vector<uint64_t> critWait;
  int pushNum = 0;
  int dynLoops = 0;      // dynamic loops of the teams this thread was master of
  int singleCount = 0;
  VC vc;
  std::function<bool()> waitFor;
};
struct LoopState {
  bool init = false;
  int64_t lb, ub, st, chunk;
  int64_t next = 0, trip = 0;
  int64_t orderedNext = 0;
  bool ordered = false;
  std::map<int, int64_t> staticPos;
  bool isStatic = false;
  std::vector<int> owner;  // owner of each chunk (assignment mode), else round robin
  std::set<int64_t> finished;
};
struct Team {
  int n = 1;
  int master = 0;
  std::vector<int> members;
  int barrierCount = 0, barrierGen = 0;
  std::map<int, LoopState> loops;
  std::set<int> singles;
  int finished = 0;
  VC barVC, barNext;
  std::map<int, VC> orderedVC;
};
