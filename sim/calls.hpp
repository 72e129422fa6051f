#pragma once
#include "plan.hpp"
#include "registry.hpp"
namespace sim
{
void run_op(Task& task, const OpSpec& spec, const TreeReg& tree, const Cfg& cfg, const Inst* shared, OpRec& rec, bool nopreempt);
}
