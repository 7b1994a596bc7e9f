#pragma once
#include <mutable/mutable.hpp>
#include <mutable/catalog/Catalog.hpp>
#include <mutable/IR/Optimizer.hpp>
#include <mutable/IR/PhysicalOptimizer.hpp>

namespace hv {

/** Plans and executes the query as the command of a shell does (`QueryDatabase::execute`), with all registered
 * optimizations, yet with the consumer of the API. */
inline void command_path(const m::ast::SelectStmt &stmt, std::unique_ptr<m::Consumer> consumer)
{
    using namespace m;
    auto &C = Catalog::Get();
    auto graph = QueryGraph::Build(stmt);
    for (auto &o : C.pre_optimizations()) (*o.second).operator()(*graph);
    Optimizer opt(C.plan_enumerator(), C.cost_function());
    std::unique_ptr<Producer> producer = opt(*graph);
    for (auto &o : C.logical_post_optimizations()) producer = (*o.second).operator()(std::move(producer));
    consumer->add_child(producer.release());
    static std::unique_ptr<Backend> backend = C.create_backend();
    PhysicalOptimizerImpl<ConcretePhysicalPlanTable> phys;
    backend->register_operators(phys);
    phys.cover(*consumer);
    auto plan = phys.extract_plan();
    for (auto &o : C.physical_post_optimizations()) plan = (*o.second).operator()(std::move(plan));
    backend->execute(*plan);
}

}
