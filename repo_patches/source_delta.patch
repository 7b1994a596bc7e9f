From 5616582b7f3376a8d49bee81fff22c1f4040b996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 001/133] fix: let the Interpreter scan tables that are given
 an alias

The schema of the scan carries the alias, whereas the schema of the data layout was built with the name of the table, such
that no attribute of an aliased table was ever found.
---
 src/backend/Interpreter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index e6f0c5a..7327d5c 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -903,7 +903,8 @@ void Pipeline::operator()(const ScanOperator &op)
     const auto num_rows = store.num_rows();
 
     /* Compile StackMachine to load tuples from store. */
-    auto loader = Interpreter::compile_load(op.schema(), store.memory().addr(), table.layout(), table.schema());
+    auto loader = Interpreter::compile_load(op.schema(), store.memory().addr(), table.layout(),
+                                            table.schema(op.alias()));
 
     const auto remainder = num_rows % block_.capacity();
     std::size_t i = 0;
-- 
2.43.0


From dad004318d2ec232e1b4568a37dedab0338d66ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 002/133] fix: preserve NULL when cloning a Tuple

Buffers of joins and sorting hold clones; a NULL attribute came back as a non-NULL garbage value.
---
 src/IR/Tuple.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/IR/Tuple.cpp b/src/IR/Tuple.cpp
index 1ccbaaa..644f525 100644
--- a/src/IR/Tuple.cpp
+++ b/src/IR/Tuple.cpp
@@ -125,7 +125,9 @@ Tuple Tuple::clone(const Schema &S) const
 {
     Tuple cpy(S);
     for (std::size_t i = 0; i != S.num_entries(); ++i) {
-        if (S[i].type->is_character_sequence()) {
+        if (is_null(i)) {
+            cpy.null(i);
+        } else if (S[i].type->is_character_sequence()) {
             strcpy(reinterpret_cast<char*>(cpy[i].as_p()), reinterpret_cast<char*>((*this)[i].as_p()));
             cpy.not_null(i);
         } else {
-- 
2.43.0


From dacb8610a8ac763a3e4891643aa1aad0c4249b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 003/133] fix: do not evaluate operators on the payload of NULL
 operands

A NULL has no value: its payload is untyped, its pointer is null, and its integer is 0.  Evaluating an operator nevertheless
tripped over the payload's type, divided by zero, or compared null pointers.  The result is NULL without looking at it.
---
 src/backend/StackMachine.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index c6939db..0b6dac8 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -1212,6 +1212,7 @@ NEXT;
 
 #define UNARY(OP, TYPE) { \
     M_insist(top_ >= 1); \
+    if (TOP_IS_NULL) { TOP = Value(); NEXT; } \
     TYPE val = TOP.as<TYPE>(); \
     TOP = OP(val); \
 } \
@@ -1219,12 +1220,13 @@ NEXT;
 
 #define BINARY(OP, TYPE) { \
     M_insist(top_ >= 2); \
-    TYPE rhs = TOP.as<TYPE>(); \
-    bool is_rhs_null = TOP_IS_NULL; \
+    const Value rhs_val = TOP; \
+    const bool is_rhs_null = TOP_IS_NULL; \
     POP(); \
+    if (TOP_IS_NULL or is_rhs_null) { TOP = Value(); TOP_IS_NULL = true; NEXT; } \
+    TYPE rhs = rhs_val.as<TYPE>(); \
     TYPE lhs = TOP.as<TYPE>(); \
     TOP = OP(lhs, rhs); \
-    TOP_IS_NULL = TOP_IS_NULL or is_rhs_null; \
 } \
 NEXT;
 
@@ -1360,11 +1362,11 @@ Not_b: UNARY(not, bool);
 /* Logical and with three-valued logic (https://en.wikipedia.org/wiki/Three-valued_logic#Kleene_and_Priest_logics). */
 And_b: {
     M_insist(top_ >= 2);
-    bool rhs = TOP.as<bool>();
     bool is_rhs_null = TOP_IS_NULL;
+    bool rhs = not is_rhs_null and TOP.as<bool>(); // the value of NULL is irrelevant
     POP();
-    bool lhs = TOP.as<bool>();
     bool is_lhs_null = TOP_IS_NULL;
+    bool lhs = not is_lhs_null and TOP.as<bool>(); // the value of NULL is irrelevant
     TOP = lhs and rhs;
     TOP_IS_NULL = (lhs or is_lhs_null) and (rhs or is_rhs_null) and (is_lhs_null or is_rhs_null);
 }
@@ -1373,11 +1375,11 @@ NEXT;
 /* Logical or with three-valued logic (https://en.wikipedia.org/wiki/Three-valued_logic#Kleene_and_Priest_logics). */
 Or_b: {
     M_insist(top_ >= 2);
-    bool rhs = TOP.as<bool>();
     bool is_rhs_null = TOP_IS_NULL;
+    bool rhs = not is_rhs_null and TOP.as<bool>(); // the value of NULL is irrelevant
     POP();
-    bool lhs = TOP.as<bool>();
     bool is_lhs_null = TOP_IS_NULL;
+    bool lhs = not is_lhs_null and TOP.as<bool>(); // the value of NULL is irrelevant
     TOP = lhs or rhs;
     TOP_IS_NULL = (not lhs or is_lhs_null) and (not rhs or is_rhs_null) and (is_lhs_null or is_rhs_null);
 }
@@ -1436,13 +1438,13 @@ GE_s: BINARY(0 <= strcmp, char*);
 
 #define CMP(TYPE) { \
     M_insist(top_ >= 2); \
-    TYPE rhs = TOP.as<TYPE>(); \
-    bool is_rhs_null = TOP_IS_NULL; \
+    const Value rhs_val = TOP; \
+    const bool is_rhs_null = TOP_IS_NULL; \
     POP(); \
+    if (TOP_IS_NULL or is_rhs_null) { TOP = Value(); TOP_IS_NULL = true; NEXT; } \
+    TYPE rhs = rhs_val.as<TYPE>(); \
     TYPE lhs = TOP.as<TYPE>(); \
-    bool is_lhs_null = TOP_IS_NULL; \
     TOP = int64_t(lhs >= rhs) - int64_t(lhs <= rhs); \
-    TOP_IS_NULL = is_lhs_null or is_rhs_null; \
 } \
 NEXT;
 
-- 
2.43.0


From c42938b5c44a1e78b5e6b8b50ccb4b3e6a57ecbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 004/133] fix: sort NULL before every value

The comparison of NULL yields NULL, on which the comparator of the Interpreter's sort aborted.  As in the WebAssembly backend,
NULL is smaller than any value, regardless of the ordering.
---
 src/backend/Interpreter.cpp  | 12 ++++++++++--
 src/backend/StackMachine.cpp |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 7327d5c..d24a31a 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1595,6 +1595,15 @@ void Interpreter::operator()(const SortingOperator &op)
 
     StackMachine comparator(data->pipeline.schema());
     for (auto o : orderings) {
+        /* NULL is always considered smaller, regardless of the ordering. */
+        comparator.emit(o.first.get(), 2); // RHS
+        comparator.emit_Is_Null();
+        comparator.emit(o.first.get(), 1); // LHS
+        comparator.emit_Is_Null();
+        comparator.emit_Cmp_b();
+        comparator.emit_St_Tup_i(0, 0);
+        comparator.emit_Stop_NZ();
+
         comparator.emit(o.first.get(), 1); // LHS
         comparator.emit(o.first.get(), 2); // RHS
 
@@ -1633,8 +1642,7 @@ void Interpreter::operator()(const SortingOperator &op)
     std::sort(data->buffer.begin(), data->buffer.end(), [&](Tuple &first, Tuple &second) {
         Tuple *args[] = { &res, &first, &second };
         comparator(args);
-        M_insist(not res.is_null(0));
-        return res[0].as_i() < 0;
+        return not res.is_null(0) and res[0].as_i() < 0; // NULL iff all remaining expressions are NULL in both tuples
     });
 
     auto &parent = *op.parent();
diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index 0b6dac8..fae742e 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -897,7 +897,7 @@ NEXT;
 
 Stop_NZ: {
     M_insist(top_ >= 1);
-    if (TOP.as_i() != 0) goto Stop; // stop evaluation on NOT ZERO
+    if (not TOP_IS_NULL and TOP.as_i() != 0) goto Stop; // stop evaluation on NOT ZERO
 }
 NEXT;
 
-- 
2.43.0


From 25a62fe9a666ff5e40cd50a1946e5f33f55c768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 005/133] fix: perform the Interpreter's hash join only where
 comparing keys is equality

Keys are compared bytewise.  That aborts for operands of different types and for negated inequalities, compares the addresses
of character sequences, and joins NULL with NULL.  Use the nested-loops join for the former and drop NULL keys.
---
 src/backend/Interpreter.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index d24a31a..721e9d8 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -654,6 +654,26 @@ struct SimpleHashJoinData : JoinData
     Schema key_schema; ///< the `Schema` of the `key`
     Tuple key; ///< `Tuple` to hold the key
 
+    /** Returns `true` iff the predicate of `op` can be evaluated by comparing keys bytewise: only comparisons for equality of
+     * two operands of the same type, that is not a character sequence since those are represented by pointers. */
+    static bool is_applicable(const JoinOperator &op) {
+        if (not op.predicate().is_equi()) return false;
+        for (auto &clause : op.predicate()) {
+            auto binary = cast<const ast::BinaryExpr>(&clause[0].expr());
+            if (clause[0].negative() or not binary or binary->tok != TK_EQUAL) return false;
+            if (binary->lhs->type() != binary->rhs->type()) return false;
+            if (binary->lhs->type()->is_character_sequence()) return false;
+        }
+        return true;
+    }
+
+    /** Returns `true` iff any part of the `key` is `NULL`.  Such a key is not equal to any key. */
+    bool key_is_null() const {
+        for (std::size_t i = 0; i != exprs.size(); ++i)
+            if (key.is_null(i)) return true;
+        return false;
+    }
+
     SimpleHashJoinData(const JoinOperator &op)
         : JoinData(op)
         , ht(1024)
@@ -1006,6 +1026,7 @@ void Pipeline::operator()(const JoinOperator &op)
             for (auto &t : block_) {
                 args[1] = &t;
                 data->probe_key(args);
+                if (data->key_is_null()) continue; // NULL is not equal to anything
                 pipeline.block_.fill();
                 data->ht.for_all(*args[0], [&](std::pair<const Tuple, Tuple> &v) {
                     if (i == pipeline.block_.capacity()) {
@@ -1039,6 +1060,7 @@ void Pipeline::operator()(const JoinOperator &op)
             for (auto &t : block_) {
                 args[1] = &t;
                 data->build_key(args);
+                if (data->key_is_null()) continue; // NULL is not equal to anything
                 data->ht.insert_with_duplicates(args[0]->clone(data->key_schema), t.clone(tuple_schema));
             }
         }
@@ -1448,7 +1470,7 @@ void Interpreter::operator()(const DisjunctiveFilterOperator &op)
 
 void Interpreter::operator()(const JoinOperator &op)
 {
-    if (op.predicate().is_equi()) {
+    if (SimpleHashJoinData::is_applicable(op)) {
         /* Perform simple hash join. */
         auto data = new SimpleHashJoinData(op);
         op.data(data);
-- 
2.43.0


From cf37990ed2dac958ba51e4246f1291b7bbfc7961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 006/133] fix: refill the hash join's output block after
 pushing it mid-probe

The parent operator may erase tuples from the block, e.g. OFFSET.
---
 src/backend/Interpreter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 721e9d8..e1cde7c 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1031,6 +1031,7 @@ void Pipeline::operator()(const JoinOperator &op)
                 data->ht.for_all(*args[0], [&](std::pair<const Tuple, Tuple> &v) {
                     if (i == pipeline.block_.capacity()) {
                         pipeline.push(*op.parent());
+                        pipeline.block_.fill(); // the parent may have erased tuples from the block
                         i = 0;
                     }
 
-- 
2.43.0


From 78552564b9e155803c9f2964850faeaec679e222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 007/133] fix: do not compare floating-point keys bytewise in
 the Interpreter's hash join

---
 src/backend/Interpreter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index e1cde7c..feebc72 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -655,14 +655,15 @@ struct SimpleHashJoinData : JoinData
     Tuple key; ///< `Tuple` to hold the key
 
     /** Returns `true` iff the predicate of `op` can be evaluated by comparing keys bytewise: only comparisons for equality of
-     * two operands of the same type, that is not a character sequence since those are represented by pointers. */
+     * two operands of the same type, that is neither a character sequence since those are represented by pointers nor
+     * floating point since `0.0 = -0.0`. */
     static bool is_applicable(const JoinOperator &op) {
         if (not op.predicate().is_equi()) return false;
         for (auto &clause : op.predicate()) {
             auto binary = cast<const ast::BinaryExpr>(&clause[0].expr());
             if (clause[0].negative() or not binary or binary->tok != TK_EQUAL) return false;
             if (binary->lhs->type() != binary->rhs->type()) return false;
-            if (binary->lhs->type()->is_character_sequence()) return false;
+            if (binary->lhs->type()->is_character_sequence() or binary->lhs->type()->is_floating_point()) return false;
         }
         return true;
     }
-- 
2.43.0


From ca0a5ff9cd078785221f16c9c25f0c8150a9cfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 008/133] fix: group by the value of character sequences and
 floating-point numbers

Keys were hashed and compared by their representation, i.e. character sequences by their address and 0.0 and -0.0 as
distinct values.
---
 src/backend/Interpreter.cpp | 53 ++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 9 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index feebc72..4c8ee1a 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -824,18 +824,45 @@ struct AggregationData : OperatorData
 
 struct HashBasedGroupingData : GroupingData
 {
+    /** The types of the keys, required to hash and to compare the *values* of character sequences and floating-point
+     * numbers rather than their representation. */
+    using key_types = std::vector<const Type*>;
+
+    /** Returns the types of the keys of `op`. */
+    static key_types get_key_types(const GroupingOperator &op) {
+        key_types types;
+        for (auto [grp, alias] : op.group_by())
+            types.push_back(grp.get().type());
+        return types;
+    }
+
+    /** Returns the character sequence `val` of type `cs`, without trailing NUL bytes. */
+    static std::string_view to_string_view(const Value &val, const CharacterSequence &cs) {
+        auto str = val.as<const char*>();
+        return std::string_view(str, strnlen(str, cs.length));
+    }
+
     /** Callable to compute the hash of the keys of a tuple. */
     struct hasher
     {
-        std::size_t key_size;
+        key_types types;
 
-        hasher(std::size_t key_size) : key_size(key_size) { }
+        hasher(key_types types) : types(std::move(types)) { }
 
         uint64_t operator()(const Tuple &tup) const {
             std::hash<Value> h;
             uint64_t hash = 0xcbf29ce484222325;
-            for (std::size_t i = 0; i != key_size; ++i) {
-                hash ^= tup.is_null(i) ? 0 : h(tup[i]);
+            for (std::size_t i = 0; i != types.size(); ++i) {
+                if (tup.is_null(i))
+                    hash ^= 0;
+                else if (auto cs = cast<const CharacterSequence>(types[i]))
+                    hash ^= std::hash<std::string_view>{}(to_string_view(tup[i], *cs));
+                else if (types[i]->is_float())
+                    hash ^= std::hash<float>{}(tup[i].as_f());
+                else if (types[i]->is_double())
+                    hash ^= std::hash<double>{}(tup[i].as_d());
+                else
+                    hash ^= h(tup[i]);
                 hash *= 1099511628211;
             }
             return hash;
@@ -845,15 +872,23 @@ struct HashBasedGroupingData : GroupingData
     /** Callable to compare two tuples by their keys. */
     struct equals
     {
-        std::size_t key_size;
+        key_types types;
 
-        equals(std::size_t key_size) : key_size(key_size) { }
+        equals(key_types types) : types(std::move(types)) { }
 
         uint64_t operator()(const Tuple &first, const Tuple &second) const {
-            for (std::size_t i = 0; i != key_size; ++i) {
+            for (std::size_t i = 0; i != types.size(); ++i) {
                 if (first.is_null(i) != second.is_null(i)) return false;
-                if (not first.is_null(i))
+                if (first.is_null(i)) continue;
+                if (auto cs = cast<const CharacterSequence>(types[i])) {
+                    if (to_string_view(first[i], *cs) != to_string_view(second[i], *cs)) return false;
+                } else if (types[i]->is_float()) {
+                    if (first[i].as_f() != second[i].as_f() and first.get(i) != second.get(i)) return false;
+                } else if (types[i]->is_double()) {
+                    if (first[i].as_d() != second[i].as_d() and first.get(i) != second.get(i)) return false;
+                } else {
                     if (first.get(i) != second.get(i)) return false;
+                }
             }
             return true;
         }
@@ -865,7 +900,7 @@ struct HashBasedGroupingData : GroupingData
 
     HashBasedGroupingData(const GroupingOperator &op)
         : GroupingData(op)
-        , groups(1024, hasher(op.group_by().size()), equals(op.group_by().size()))
+        , groups(1024, hasher(get_key_types(op)), equals(get_key_types(op)))
     { }
 };
 
-- 
2.43.0


From 861749f36d33bbd48bb0bf8147778665f0605e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 009/133] fix: store arguments of aggregates with the type they
 are cast to

The Interpreter's grouping stored them with the type of the argument, e.g. SUM of FLOAT.  COUNT needs no cast.
---
 src/backend/Interpreter.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 4c8ee1a..0208f25 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -777,10 +777,12 @@ struct GroupingData : OperatorData
             StackMachine sm(op.child(0)->schema());
             std::vector<const Type*> arg_types;
             for (auto &arg : fe.args) {
+                /* COUNT does not require the value of its argument. */
+                auto type = fe.get_function().fnid == Function::FN_COUNT ? arg->type() : fe.type();
                 sm.emit(*arg, 1);
-                sm.emit_Cast(agg.get().type(), arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
-                sm.emit_St_Tup(0, arg_idx++, arg->type());
-                arg_types.push_back(arg->type());
+                sm.emit_Cast(type, arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
+                sm.emit_St_Tup(0, arg_idx++, type); // store casted argument of aggregate type to tuple
+                arg_types.push_back(type);
             }
             args.emplace_back(Tuple(arg_types));
             compute_aggregate_arguments.emplace_back(std::move(sm));
@@ -811,10 +813,12 @@ struct AggregationData : OperatorData
             StackMachine sm(op.child(0)->schema());
             std::vector<const Type*> arg_types;
             for (auto &arg : fe.args) {
+                /* COUNT does not require the value of its argument. */
+                auto type = fe.get_function().fnid == Function::FN_COUNT ? arg->type() : fe.type();
                 sm.emit(*arg, 1);
-                sm.emit_Cast(agg.get().type(), arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
-                sm.emit_St_Tup(0, arg_idx++, agg.get().type()); // store casted argument of aggregate type to tuple
-                arg_types.push_back(agg.get().type());
+                sm.emit_Cast(type, arg->type()); // cast argument type to aggregate type, e.g. f32 to f64 for SUM
+                sm.emit_St_Tup(0, arg_idx++, type); // store casted argument of aggregate type to tuple
+                arg_types.push_back(type);
             }
             args.emplace_back(Tuple(arg_types));
             compute_aggregate_arguments.emplace_back(std::move(sm));
-- 
2.43.0


From 5c0de5e4966330dc5cda24ef6531bf3a504d0d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 010/133] fix: let AVG ignore NULLs and let SUM and AVG of no
 values be NULL

AVG divided by the number of all tuples, including those with NULL.
---
 src/backend/Interpreter.cpp | 55 ++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 0208f25..a0f1e04 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -794,18 +794,18 @@ struct AggregationData : OperatorData
 {
     Pipeline pipeline;
     Tuple aggregates;
+    std::vector<unsigned> counts; ///< for each aggregate, the number of arguments that are not NULL
     std::vector<StackMachine> compute_aggregate_arguments; ///< StackMachines to compute the argumetns of aggregations
     std::vector<Tuple> args; ///< tuple used to hold the computed arguments
 
     AggregationData(const AggregationOperator &op)
         : pipeline(op.schema())
+        , counts(op.aggregates().size(), 0)
     {
         std::vector<const Type*> types;
         for (auto &e : op.schema())
             types.push_back(e.type);
-        types.push_back(Type::Get_Integer(Type::TY_Scalar, 8)); // add nth_tuple counter
         aggregates = Tuple(std::move(types));
-        aggregates.set(op.schema().num_entries(), 0L); // initialize running count
 
         for (auto agg : op.aggregates()) {
             auto &fe = as<const ast::FnApplicationExpr>(agg.get());
@@ -898,9 +898,9 @@ struct HashBasedGroupingData : GroupingData
         }
     };
 
-    /** A map of `Tuple`s, where the key part is used for hashing and comparison.  The mapped to value holds the count
-     * of tuples that belong to this group. */
-    std::unordered_map<Tuple, unsigned, hasher, equals> groups;
+    /** A map of `Tuple`s, where the key part is used for hashing and comparison.  The mapped to value holds, for each
+     * aggregate, the number of arguments in this group that are not NULL. */
+    std::unordered_map<Tuple, std::vector<unsigned>, hasher, equals> groups;
 
     HashBasedGroupingData(const GroupingOperator &op)
         : GroupingData(op)
@@ -1246,7 +1246,6 @@ void Pipeline::operator()(const GroupingOperator &op)
         const std::size_t key_size = op.group_by().size();
 
         Tuple &group = const_cast<Tuple&>(entry.first);
-        const unsigned nth_tuple = ++entry.second;
 
         /* Add this tuple to its group by computing the aggregates. */
         for (std::size_t i = 0, end = op.aggregates().size(); i != end; ++i) {
@@ -1280,13 +1279,13 @@ void Pipeline::operator()(const GroupingOperator &op)
 
                 case Function::FN_SUM: {
                     auto n = as<const Numeric>(ty);
+                    if (aggregate_arguments.is_null(0)) continue; // skip NULL
                     if (is_null) {
                         if (n->is_floating_point())
                             group.set(key_size + i, 0.); // double precision
                         else
                             group.set(key_size + i, 0); // int
                     }
-                    if (aggregate_arguments.is_null(0)) continue; // skip NULL
                     if (n->is_floating_point())
                         val.as_d() += aggregate_arguments[0].as_d();
                     else
@@ -1295,16 +1294,16 @@ void Pipeline::operator()(const GroupingOperator &op)
                 }
 
                 case Function::FN_AVG: {
+                    if (aggregate_arguments.is_null(0)) continue; // skip NULL
                     if (is_null) {
                         if (ty->is_floating_point())
                             group.set(key_size + i, 0.); // double precision
                         else
                             group.set(key_size + i, 0); // int
                     }
-                    if (aggregate_arguments.is_null(0)) continue; // skip NULL
                     /* Compute AVG as iterative mean as described in Knuth, The Art of Computer Programming Vol 2,
                      * section 4.2.2. */
-                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / nth_tuple;
+                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / ++entry.second[i];
                     break;
                 }
 
@@ -1359,7 +1358,7 @@ void Pipeline::operator()(const GroupingOperator &op)
         if (it == groups.end()) {
             /* Initialize the group's aggregate to NULL.  This will be overwritten by the neutral element w.r.t.
              * the aggregation function. */
-            it = groups.emplace_hint(it, std::move(key), 0);
+            it = groups.emplace_hint(it, std::move(key), std::vector<unsigned>(op.aggregates().size(), 0));
             key = Tuple(op.schema());
         }
         perform_aggregation(*it, tuple, *data);
@@ -1369,10 +1368,8 @@ void Pipeline::operator()(const GroupingOperator &op)
 void Pipeline::operator()(const AggregationOperator &op)
 {
     auto data = as<AggregationData>(op.data());
-    auto &nth_tuple = data->aggregates[op.schema().num_entries()].as_i();
 
     for (auto &tuple : block_) {
-        nth_tuple += 1UL;
         for (std::size_t i = 0, end = op.aggregates().size(); i != end; ++i) {
             auto &aggregate_arguments = data->args[i];
             Tuple *args[] = { &aggregate_arguments, &tuple };
@@ -1403,6 +1400,12 @@ void Pipeline::operator()(const AggregationOperator &op)
                 case Function::FN_SUM: {
                     auto n = as<const Numeric>(ty);
                     if (aggregate_arguments.is_null(0)) continue; // skip NULL
+                    if (agg_is_null) {
+                        if (n->is_floating_point())
+                            data->aggregates.set(i, 0.); // double precision
+                        else
+                            data->aggregates.set(i, 0L); // int64
+                    }
                     if (n->is_floating_point())
                         val.as_d() += aggregate_arguments[0].as_d();
                     else
@@ -1412,9 +1415,15 @@ void Pipeline::operator()(const AggregationOperator &op)
 
                 case Function::FN_AVG: {
                     if (aggregate_arguments.is_null(0)) continue; // skip NULL
+                    if (agg_is_null) {
+                        if (ty->is_floating_point())
+                            data->aggregates.set(i, 0.); // double precision
+                        else
+                            data->aggregates.set(i, 0L); // int64
+                    }
                     /* Compute AVG as iterative mean as described in Knuth, The Art of Computer Programming Vol 2,
                      * section 4.2.2. */
-                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / nth_tuple;
+                    val.as_d() += (aggregate_arguments[0].as_d() - val.as_d()) / ++data->counts[i];
                     break;
                 }
 
@@ -1599,7 +1608,6 @@ void Interpreter::operator()(const AggregationOperator &op)
     /* Initialize aggregates. */
     for (std::size_t i = 0, end = op.aggregates().size(); i != end; ++i) {
         auto &fe = as<const ast::FnApplicationExpr>(op.aggregates()[i].get());
-        auto ty = fe.type();
         auto &fn = fe.get_function();
 
         switch (fn.fnid) {
@@ -1613,23 +1621,8 @@ void Interpreter::operator()(const AggregationOperator &op)
                 data->aggregates.set(i, 0); // initialize
                 break;
 
-            case Function::FN_SUM: {
-                auto n = as<const Numeric>(ty);
-                if (n->is_floating_point())
-                    data->aggregates.set(i, 0.); // double precision
-                else
-                    data->aggregates.set(i, 0L); // int64
-                break;
-            }
-
-            case Function::FN_AVG: {
-                if (ty->is_floating_point())
-                    data->aggregates.set(i, 0.); // double precision
-                else
-                    data->aggregates.set(i, 0L); // int64
-                break;
-            }
-
+            case Function::FN_SUM:
+            case Function::FN_AVG:
             case Function::FN_MIN:
             case Function::FN_MAX: {
                 data->aggregates.null(i); // initialize to NULL
-- 
2.43.0


From fb810a5c5652e0b85813e7368595cb6b017343d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 011/133] fix: let LIMIT 0 produce no rows

---
 include/mutable/IR/QueryGraph.hpp | 2 +-
 src/IR/Optimizer.cpp              | 2 +-
 src/IR/QueryGraph.cpp             | 3 ++-
 src/IR/QueryGraph2SQL.cpp         | 8 ++++----
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/mutable/IR/QueryGraph.hpp b/include/mutable/IR/QueryGraph.hpp
index fb3df20..3bbeef3 100644
--- a/include/mutable/IR/QueryGraph.hpp
+++ b/include/mutable/IR/QueryGraph.hpp
@@ -187,7 +187,7 @@ struct M_EXPORT QueryGraph
     std::vector<std::reference_wrapper<const ast::FnApplicationExpr>> aggregates_; ///< the aggregates to compute
     std::vector<projection_type> projections_; ///< the data to compute
     std::vector<order_type> order_by_; ///< the order
-    struct { uint64_t limit = 0, offset = 0; } limit_; ///< limit: limit and offset
+    struct { uint64_t limit = 0, offset = 0; bool exists = false; } limit_; ///< limit: limit and offset, if a limit exists
 
     mutable std::unique_ptr<AdjacencyMatrix> adjacency_matrix_;
 
diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index 406e65b..0eedfea 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -446,7 +446,7 @@ std::unique_ptr<Producer> Optimizer::optimize_plan(const QueryGraph &G, std::uni
     }
 
     /* Limit. */
-    if (G.limit().limit or G.limit().offset) {
+    if (G.limit().exists) {
         /* Compute `DataModel` after limit. */
         auto new_model = CE.estimate_limit(G, *entry.model, G.limit().limit, G.limit().offset);
         entry.model = std::move(new_model);
diff --git a/src/IR/QueryGraph.cpp b/src/IR/QueryGraph.cpp
index 0d67996..36da6fe 100644
--- a/src/IR/QueryGraph.cpp
+++ b/src/IR/QueryGraph.cpp
@@ -1877,6 +1877,7 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
     if (stmt.limit) {
         auto LIMIT = as<ast::LimitClause>(stmt.limit.get());
         errno = 0;
+        graph_->limit_.exists = true;
         graph_->limit_.limit = strtoull(*(LIMIT->limit.text), nullptr, 0);
         M_insist(errno == 0);
         if (LIMIT->offset) {
@@ -1976,7 +1977,7 @@ void QueryGraph::dot_recursive(std::ostream &out) const
         << "<TABLE BORDER=\"0\" CELLPADDING=\"0\" CELLSPACING=\"0\">\n";
 
     /* Limit */
-    if (limit_.limit != 0 or limit_.offset != 0) {
+    if (limit_.exists) {
         out << "             <TR><TD ALIGN=\"LEFT\">\n"
             << "               <B>λ</B><FONT POINT-SIZE=\"9\">"
             << limit_.limit << ", " << limit_.offset
diff --git a/src/IR/QueryGraph2SQL.cpp b/src/IR/QueryGraph2SQL.cpp
index 7e084b8..6d206a0 100644
--- a/src/IR/QueryGraph2SQL.cpp
+++ b/src/IR/QueryGraph2SQL.cpp
@@ -85,10 +85,10 @@ void QueryGraph2SQL::translate(const QueryGraph &graph)
         }
     }
 
-    if (auto limit = graph_->limit().limit, offset = graph_->limit().offset; limit != 0 or offset != 0 ) {
-        out_ << " LIMIT " << limit;
-        if (offset != 0)
-            out_ << " OFFSET " << offset;
+    if (auto limit = graph_->limit(); limit.exists) {
+        out_ << " LIMIT " << limit.limit;
+        if (limit.offset != 0)
+            out_ << " OFFSET " << limit.offset;
     }
 }
 
-- 
2.43.0


From 4da4c98bad9346f5f22341e2bb02df8ff9e1a4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 012/133] fix: do not let rows of an INSERT inherit values of
 preceding rows

DEFAULT evaluated to the value of the preceding row.  NULL was stored to the wrong attribute if there are hidden ones.
execute_statement() did not invalidate indexes.
---
 src/catalog/DatabaseCommand.cpp | 3 ++-
 src/mutable.cpp                 | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index 5128ca3..655c2af 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -150,12 +150,13 @@ void InsertRecords::execute(Diagnostic&)
     /* Write all tuples to the store. */
     for (auto &t : I.tuples) {
         StackMachine get_tuple(Schema{});
+        tup.clear(); // the tuple is reused for all rows
         for (std::size_t i = 0; i != t.size(); ++i) {
             auto attr_id = T.convert_id(i); // hidden attributes change the actual id of the attribute
             auto &v = t[i];
             switch (v.first) {
                 case ast::InsertStmt::I_Null:
-                    get_tuple.emit_St_Tup_Null(0, i);
+                    get_tuple.emit_St_Tup_Null(0, attr_id);
                     break;
 
                 case ast::InsertStmt::I_Default:
diff --git a/src/mutable.cpp b/src/mutable.cpp
index 372fd31..ff61525 100644
--- a/src/mutable.cpp
+++ b/src/mutable.cpp
@@ -197,6 +197,7 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
         /* Write all tuples to the store. */
         for (auto &t : I->tuples) {
             StackMachine get_tuple(Schema{});
+            tup.clear(); // the tuple is reused for all rows
             for (std::size_t i = 0; i != t.size(); ++i) {
                 auto &v = t[i];
                 switch (v.first) {
@@ -219,6 +220,8 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
             get_tuple(args);
             W.append(tup);
         }
+        /* Invalidate all indexes on the table. */
+        DB.invalidate_indexes(T.name());
     } else if (auto S = cast<const ast::CreateDatabaseStmt>(&stmt)) {
         C.add_database(S->database_name.text.assert_not_none());
     } else if (auto S = cast<const ast::DropDatabaseStmt>(&stmt)) {
-- 
2.43.0


From c98efe93401d0d015fd3314a1ee8016da0a4edb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 013/133] fix: invalidate the indexes of a table after an
 import

---
 src/catalog/DatabaseCommand.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index 655c2af..4aed14f 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -213,6 +213,8 @@ void ImportDSV::execute(Diagnostic &diag)
             diag.err() << std::endl;
         } else {
             M_TIME_EXPR(R(file, path_.c_str()), "Read DSV file", C.timer());
+            /* Invalidate all indexes on the table. */
+            C.get_database_in_use().invalidate_indexes(table_.name());
         }
     } catch (m::invalid_argument e) {
         diag.err() << "Error reading DSV file: " << e.what() << "\n";
-- 
2.43.0


From 4ae5d779c4389b291bfdba176a2c76446376fc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 014/133] fix: do not dereference a table that was not created

---
 src/catalog/DatabaseCommand.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/catalog/DatabaseCommand.cpp b/src/catalog/DatabaseCommand.cpp
index 4aed14f..8dada76 100644
--- a/src/catalog/DatabaseCommand.cpp
+++ b/src/catalog/DatabaseCommand.cpp
@@ -271,6 +271,7 @@ void CreateTable::execute(Diagnostic &diag)
         table = &DB.add(std::move(table_));
     } catch (std::invalid_argument) {
         diag.err() << "Table " << table_name << " already exists in database " << DB.name << ".\n";
+        return;
     }
 
     table->layout(C.data_layout());
-- 
2.43.0


From 4068d7c5124a8d0b5868196a10912b16512a234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 015/133] fix: do not lose the wake-up of a reader that waits
 for its upgrade

Notifying a single waiter may wake a regular writer that cannot proceed, such that all waiters sleep forever.
---
 include/mutable/util/reader_writer_lock.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mutable/util/reader_writer_lock.hpp b/include/mutable/util/reader_writer_lock.hpp
index 13bf302..4f73454 100644
--- a/include/mutable/util/reader_writer_lock.hpp
+++ b/include/mutable/util/reader_writer_lock.hpp
@@ -208,9 +208,10 @@ class reader_writer_mutex
         M_insist(not rw_.reader_wants_upgrade() or rw_.writers_waiting() != 0,
                  "if a reader wants to upgrade, it must be waiting to claim the write lock");
         if (rw_.reader_wants_upgrade() and rw_.readers_active() == 1) {
-            /* There is a single active reader remaining, that wants to upgrade to a writer.  Notify it. */
+            /* There is a single active reader remaining, that wants to upgrade to a writer.  Notify it.  As it may be
+             * waiting together with regular writers, that cannot proceed, we must notify all of them. */
             lock.unlock();
-            notify_writer();
+            cv_writers_.notify_all();
         } else if (rw_.readers_active() == 0 and rw_.writers_waiting() != 0) {
             /* We were the last reader and there are writers waiting to acquire the lock.  Notify one of them. */
             lock.unlock();
-- 
2.43.0


From 183815ee1502456ea71cda6eb8755ca87ac82c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 016/133] fix: release the read lock when upgrade_lock fails to
 upgrade

---
 include/mutable/util/reader_writer_lock.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mutable/util/reader_writer_lock.hpp b/include/mutable/util/reader_writer_lock.hpp
index 4f73454..984ec2b 100644
--- a/include/mutable/util/reader_writer_lock.hpp
+++ b/include/mutable/util/reader_writer_lock.hpp
@@ -384,8 +384,8 @@ struct upgrade_lock : protected read_lock
     using read_lock::unlock;
 
     /**
-     * Attempts to upgrade the read lock to a write lock.  Returns a `write_lock` on success.  On failure,
-     * `std::nullopt` is returned and the held read lock is unlocked to prevent deadlocks.
+     * Attempts to upgrade the read lock to a write lock.  Returns an owning `write_lock` on success.  On failure, a
+     * `write_lock` that does not own the lock is returned and the held read lock is unlocked to prevent deadlocks.
      *
      * @see `reader_writer_lock::upgrade()`
      */
@@ -395,6 +395,7 @@ struct upgrade_lock : protected read_lock
             owns_lock_ = false;
             return write_lock{rw_mutex_, std::adopt_lock};  // we already own the write lock after upgrade
         }
+        unlock();  // prevent deadlock by giving up read lock after failing to upgrade
         return write_lock{rw_mutex_, std::defer_lock};  // we could not upgrade to a write lock
     }
 };
-- 
2.43.0


From 8b6c0cf5a27216b17f7d07aaddc8a2b2a0b21be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 017/133] fix: do not unlock twice after move-assigning a
 reader_writer_lock

---
 include/mutable/util/reader_writer_lock.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/mutable/util/reader_writer_lock.hpp b/include/mutable/util/reader_writer_lock.hpp
index 984ec2b..18824a9 100644
--- a/include/mutable/util/reader_writer_lock.hpp
+++ b/include/mutable/util/reader_writer_lock.hpp
@@ -262,7 +262,14 @@ struct reader_writer_lock
         unlock();
     }
 
-    reader_writer_lock & operator=(reader_writer_lock &&other) = default;
+    reader_writer_lock & operator=(reader_writer_lock &&other) {
+        if (this != &other) {
+            if (state_ != LOCK_NONE) unlock();
+            rw_mutex_ = other.rw_mutex_;
+            state_ = std::exchange(other.state_, LOCK_NONE);
+        }
+        return *this;
+    }
 
     bool owns_read_lock() const { return state_ == LOCK_READ; }
     bool owns_write_lock() const { return state_ == LOCK_WRITE; }
-- 
2.43.0


From db26b2ac44b13186b75850a891f2e02f5c16dc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 018/133] fix: search the command queue of the serial scheduler
 within its bounds

The search for queued commands of the transaction ran beyond the list, unless it was empty.
---
 src/catalog/SerialScheduler.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index 1fc9b92..6b495b1 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -48,15 +48,15 @@ void SerialScheduler::CommandQueue::push(Transaction &t, std::unique_ptr<ast::Co
 
     /* Check if transaction `t` already has elements in the queue, if not then check if the transaction is the currently
      * running transaction. If yes, then emplace the command in the front, otherwise emplace at the end. */
-    auto it = std::find_if(command_list_.rend(), command_list_.rbegin(),
+    auto it = std::find_if(command_list_.rbegin(), command_list_.rend(),
             [&t](queued_command &x){ return (t == std::get<0>(x)); }
     );
-    if (running_transaction_ and *running_transaction_ == t and it == command_list_.rend())
+    if (it != command_list_.rend()) // insert right behind the last queued command of this transaction
+        command_list_.emplace(it.base(), t, std::move(command), diag, std::move(promise));
+    else if (running_transaction_ and *running_transaction_ == t)
         command_list_.emplace_front(t, std::move(command), diag, std::move(promise));
-    else if (it == command_list_.rbegin())
-        command_list_.emplace_back(t, std::move(command), diag, std::move(promise));
     else
-        command_list_.emplace(++it.base(), t, std::move(command), diag, std::move(promise));
+        command_list_.emplace_back(t, std::move(command), diag, std::move(promise));
 
     lock.unlock();
     has_element_.notify_one();
-- 
2.43.0


From becebf2153e1eba0fef83c60da14bc89929435a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 019/133] fix: do not stop the running transaction when ending
 another one that did not execute anything

---
 src/catalog/SerialScheduler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index 6b495b1..a4349d2 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -82,7 +82,8 @@ bool SerialScheduler::CommandQueue::is_closed()
 
 void SerialScheduler::CommandQueue::stop_transaction(Transaction &t) {
     std::unique_lock<std::mutex> lock(mutex_);
-    M_insist(&t == running_transaction_);
+    if (&t != running_transaction_)
+        return; // `t` did not execute any command
     running_transaction_ = nullptr;
     lock.unlock();
     has_element_.notify_one();
-- 
2.43.0


From 619fe0da09fe3ac81d3e37ba2954e006d8ae8966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 020/133] fix: start the worker thread of the serial scheduler
 exactly once if clients schedule concurrently

---
 src/catalog/SerialScheduler.cpp | 5 ++---
 src/catalog/SerialScheduler.hpp | 2 ++
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index a4349d2..e229a6e 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -106,9 +106,8 @@ std::future<bool> SerialScheduler::schedule_command(Transaction &t, std::unique_
     auto execution_completed_future = execution_completed.get_future();
     query_queue_.push(t, std::move(command), diag, std::move(execution_completed));
 
-    if (not schedule_thread_.joinable()) [[unlikely]]
-        // Creating the worker thread not here but in the constructor of `SerialScheduler` causes deadlocks.
-        schedule_thread_ = std::thread(schedule_thread);
+    // Creating the worker thread not here but in the constructor of `SerialScheduler` causes deadlocks.
+    std::call_once(schedule_thread_started_, [this]() { schedule_thread_ = std::thread(schedule_thread); });
     return execution_completed_future;
 }
 
diff --git a/src/catalog/SerialScheduler.hpp b/src/catalog/SerialScheduler.hpp
index d2dcc55..d5ffc0b 100644
--- a/src/catalog/SerialScheduler.hpp
+++ b/src/catalog/SerialScheduler.hpp
@@ -3,6 +3,7 @@
 #include <mutable/catalog/Scheduler.hpp>
 #include <condition_variable>
 #include <list>
+#include <mutex>
 #include <future>
 #include <thread>
 
@@ -41,6 +42,7 @@ struct SerialScheduler : Scheduler
     };
 
     static CommandQueue query_queue_; ///< instance of our thread-safe query queue that stores all incoming plans.
+    std::once_flag schedule_thread_started_; ///< ensures that the worker thread is started exactly once
     std::thread schedule_thread_; ///< the worker thread that executes all incoming queries.
 
     static std::atomic<int64_t> next_start_time; ///< stores the next transaction start time
-- 
2.43.0


From 1262f9f7ba2404df4ff1c6c1c031e0876cdd2be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 021/133] fix: let aggregates of a grouping key refer to the
 attribute rather than to the key

Aggregating an unqualified grouping key, e.g. SELECT b, SUM(b) FROM t GROUP BY b, aborted.
---
 src/parse/Sema.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index ff462a5..e1e7a03 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -514,10 +514,6 @@ void Sema::operator()(FnApplicationExpr &e)
     M_insist(bool(d));
     M_insist(not d->type_, "This identifier has already been analyzed.");
 
-    /* Analyze arguments. */
-    for (auto &arg : e.args)
-        (*this)(*arg);
-
     /* Lookup the function. */
     if (C.has_database_in_use()) {
         const auto &DB = C.get_database_in_use();
@@ -540,6 +536,15 @@ void Sema::operator()(FnApplicationExpr &e)
     }
     M_insist(e.func_);
 
+    /* Analyze arguments.  Since the arguments of an aggregate function are evaluated *before* grouping, they must neither
+     * refer to grouping keys nor to values produced by SELECT. */
+    const auto old_stage = Ctx.stage;
+    if (e.func_->is_aggregate() and Ctx.stage > SemaContext::S_GroupBy)
+        Ctx.stage = SemaContext::S_GroupBy;
+    for (auto &arg : e.args)
+        (*this)(*arg);
+    Ctx.stage = old_stage;
+
     /* Infer the type of the function.  Functions are defined in an abstract way, where the type of the parameters is
      * not specified.  We must infer the parameter types and the return type of the function. */
     switch (e.func_->fnid) {
@@ -580,7 +585,10 @@ void Sema::operator()(FnApplicationExpr &e)
             }
             M_insist(arg.type()->is_numeric());
             const Numeric *arg_type = cast<const Numeric>(arg.type());
-            if (not arg_type->is_vectorial()) {
+            auto arg_designator = cast<const Designator>(&arg);
+            const bool is_grouping_key =
+                arg_designator and Ctx.grouping_keys.contains(arg_designator->attr_name.text.assert_not_none());
+            if (not arg_type->is_vectorial() or is_grouping_key) {
                 diag.w(d->attr_name.pos) << "Argument of aggregate is not of vectorial type.  "
                                             "(Aggregates over scalars are discouraged.)\n";
             }
-- 
2.43.0


From fe09f477aacca67f27d6f8f55b1070732a874a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 022/133] fix: do not free nested queries of the SELECT clause
 while building the query graph

cast() of the owning pointer takes ownership.
---
 src/IR/QueryGraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IR/QueryGraph.cpp b/src/IR/QueryGraph.cpp
index 36da6fe..8eae4b6 100644
--- a/src/IR/QueryGraph.cpp
+++ b/src/IR/QueryGraph.cpp
@@ -1643,7 +1643,7 @@ void m::GraphBuilder::operator()(const ast::SelectStmt &stmt) {
                                                                                  // directly add to projections
     /* Collect nested queries in SELECT clause. */
     for (auto &s : SELECT->select) {
-        if (auto query = cast<const ast::QueryExpr>(s.first)) // found nested query
+        if (auto query = cast<const ast::QueryExpr>(s.first.get())) // found nested query
             nested_queries_in_select.emplace_back(*query, s.second.text);
         else
             graph_->projections_.emplace_back(*s.first, s.second.text); // add to projections
-- 
2.43.0


From f636aa73be2a12b07dfaab2d8f58db95fc2fa83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 023/133] fix: project every attribute required by ORDER BY
 once

Projecting it repeatedly made the lookup of the attribute ambiguous.
---
 src/IR/Optimizer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index 0eedfea..818ed9e 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -127,6 +127,11 @@ Optimizer::compute_projections_required_for_order_by(const std::vector<projectio
                 if (not alias.has_value() and d == expr.get())
                     return; // found
             }
+            /*----- Find `d` in required projections. -----*/
+            for (auto &[expr, _] : required_projections) {
+                if (d == expr.get())
+                    return; // already required by another expression
+            }
             required_projections.emplace_back(d, ThreadSafePooledOptionalString{});
         },
         [&](const ast::FnApplicationExpr &fn) -> void {
@@ -135,6 +140,11 @@ Optimizer::compute_projections_required_for_order_by(const std::vector<projectio
                 if (not alias.has_value() and fn == expr.get())
                     throw visit_skip_subtree(); // found
             }
+            /*----- Find `fn` in required projections. -----*/
+            for (auto &[expr, _] : required_projections) {
+                if (fn == expr.get())
+                    throw visit_skip_subtree(); // already required by another expression
+            }
             required_projections.emplace_back(fn, ThreadSafePooledOptionalString{});
             throw visit_skip_subtree();
         },
-- 
2.43.0


From d364cc5e7858f02e26fc9a56ed08d1e77ced49e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 024/133] fix: let projections own the expressions that the
 optimizer created for them

The plan returned by logical_plan_from_statement() outlived them.
---
 include/mutable/IR/Operator.hpp  | 8 ++++++--
 include/mutable/IR/Optimizer.hpp | 1 -
 src/IR/Operator.cpp              | 4 +++-
 src/IR/Optimizer.cpp             | 7 ++++---
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/mutable/IR/Operator.hpp b/include/mutable/IR/Operator.hpp
index bd05723..35e227d 100644
--- a/include/mutable/IR/Operator.hpp
+++ b/include/mutable/IR/Operator.hpp
@@ -9,6 +9,7 @@
 #include <mutable/util/macro.hpp>
 #include <functional>
 #include <iostream>
+#include <memory>
 #include <unordered_map>
 #include <utility>
 #include <variant>
@@ -361,13 +362,16 @@ struct M_EXPORT ProjectionOperator : Producer, Consumer
 
     private:
     std::vector<projection_type> projections_;
+    ///> expressions created for `projections_`, that must live as long as this operator
+    std::vector<std::shared_ptr<const ast::Expr>> created_exprs_;
 
     public:
-    ProjectionOperator(std::vector<projection_type> projections);
+    ProjectionOperator(std::vector<projection_type> projections,
+                       std::vector<std::shared_ptr<const ast::Expr>> created_exprs = {});
 
     /** Creates and returns a copy of this single operator node, i.e. only copies this operator without adding any
      * inherited member fields like the parent or children nodes in the returned copy. */
-    ProjectionOperator clone_node() const { return ProjectionOperator(projections_); }
+    ProjectionOperator clone_node() const { return ProjectionOperator(projections_, created_exprs_); }
 
     /*----- Override child setters to *NOT* modify the computed schema! ----------------------------------------------*/
     virtual void add_child(Producer *child) override {
diff --git a/include/mutable/IR/Optimizer.hpp b/include/mutable/IR/Optimizer.hpp
index 7f0a100..ce99e47 100644
--- a/include/mutable/IR/Optimizer.hpp
+++ b/include/mutable/IR/Optimizer.hpp
@@ -24,7 +24,6 @@ struct M_EXPORT Optimizer
     private:
     const pe::PlanEnumerator &pe_;
     const CostFunction &cf_;
-    mutable std::vector<std::unique_ptr<const ast::Expr>> created_exprs_; ///< additionally created expressions
     mutable bool needs_projection_ = false; ///< flag to determine whether current query needs a projection as root
 
     public:
diff --git a/src/IR/Operator.cpp b/src/IR/Operator.cpp
index 3026f4e..a0e21ad 100644
--- a/src/IR/Operator.cpp
+++ b/src/IR/Operator.cpp
@@ -221,8 +221,10 @@ void Operator::dump(std::ostream &out) const { out << *this << std::endl; }
 void Operator::dump() const { dump(std::cerr); }
 M_LCOV_EXCL_STOP
 
-ProjectionOperator::ProjectionOperator(std::vector<projection_type> projections)
+ProjectionOperator::ProjectionOperator(std::vector<projection_type> projections,
+                                       std::vector<std::shared_ptr<const ast::Expr>> created_exprs)
     : projections_(std::move(projections))
+    , created_exprs_(std::move(created_exprs))
 {
     /* Compute the schema of the operator. */
     auto &S = schema();
diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index 818ed9e..c910895 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -479,18 +479,19 @@ std::unique_ptr<Producer> Optimizer::optimize_plan(const QueryGraph &G, std::uni
         /* Change aliased projections in designators with the alias as name since original projection is
          * performed beforehand. */
         std::vector<projection_type> adapted_projections;
+        std::vector<std::shared_ptr<const ast::Expr>> created_exprs; // owned by the projection that refers to them
         for (auto [expr, alias] : G.projections()) {
             if (alias.has_value()) {
                 Token name(expr.get().tok.pos, alias.assert_not_none(), TK_IDENTIFIER);
-                auto d = std::make_unique<const Designator>(Token::CreateArtificial(), Token::CreateArtificial(),
+                auto d = std::make_shared<const Designator>(Token::CreateArtificial(), Token::CreateArtificial(),
                                                             std::move(name), expr.get().type(), &expr.get());
                 adapted_projections.emplace_back(*d, ThreadSafePooledOptionalString{});
-                created_exprs_.emplace_back(std::move(d));
+                created_exprs.emplace_back(std::move(d));
             } else {
                 adapted_projections.emplace_back(expr, ThreadSafePooledOptionalString{});
             }
         }
-        auto projection = std::make_unique<ProjectionOperator>(std::move(adapted_projections));
+        auto projection = std::make_unique<ProjectionOperator>(std::move(adapted_projections), std::move(created_exprs));
         projection->add_child(plan.release());
 
         /* Set operator information. */
-- 
2.43.0


From 4e53eac26e8b6db51094c1b24d82442234982a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 025/133] fix: reject the remainder of floating-point numbers

It was accepted and aborted when it was evaluated.
---
 src/parse/Sema.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index e1e7a03..f3d4036 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -794,6 +794,13 @@ void Sema::operator()(BinaryExpr &e)
             M_insist(ty_lhs);
             M_insist(ty_rhs);
 
+            /* The remainder is not defined for floating-point numbers. */
+            if (e.op().type == TK_PERCENT and (ty_lhs->is_floating_point() or ty_rhs->is_floating_point())) {
+                diag.e(e.op().pos) << "Invalid expression " << e << ", operands must not be of floating-point type.\n";
+                e.type_ = Type::Get_Error();
+                return;
+            }
+
             /* Compute type of the binary expression. */
             e.type_ = e.common_operand_type = arithmetic_join(ty_lhs, ty_rhs);
             break;
-- 
2.43.0


From 9ad54d86ba37d72f15df534afd7c3a381535ec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 026/133] fix: compute the remainder of decimals of different
 scale

---
 src/backend/StackMachine.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index fae742e..79ffa0b 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -436,7 +436,9 @@ void StackMachineBuilder::operator()(Const<ast::BinaryExpr> &e)
 
         case TK_PERCENT:
             (*this)(*e.lhs);
+            scale(ty_lhs, ty);
             (*this)(*e.rhs);
+            scale(ty_rhs, ty);
             stack_machine_.emit_Mod_i();
             break;
 
-- 
2.43.0


From 83eec30dfdd6d3f1e3427fcd50c7b041ccb58535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 027/133] fix: do not parse unary operators as binary ones

---
 src/parse/Parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/Parser.cpp b/src/parse/Parser.cpp
index 9f4e1b0..9cc8760 100644
--- a/src/parse/Parser.cpp
+++ b/src/parse/Parser.cpp
@@ -1046,6 +1046,7 @@ std::unique_ptr<Expr> Parser::parse_Expr(const int precedence_lhs, std::unique_p
         Token op = token();
         int p = get_precedence(op);
         if (precedence_lhs > p) return lhs; // left operator has higher precedence_lhs
+        if (op == TK_TILDE or op == TK_Not) return lhs; // not a binary operator
         consume();
 
         auto rhs = parse_Expr(p + 1);
-- 
2.43.0


From 1b0462c32c4f685cfad3cda3dbe7ab06a6253f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 028/133] fix: convert floating-point numbers to the closest
 decimal

INSERT INTO t VALUES (2.3) stored 2.29 in a DECIMAL(8, 2).
---
 src/backend/StackMachine.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index 79ffa0b..3738f47 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -738,6 +738,17 @@ void StackMachine::emit_Cast(const Type *to_ty, const Type *from_ty)
     auto from = as<const PrimitiveType>(from_ty);
     if (from->as_vectorial() == to->as_vectorial()) return; // nothing to be done
 
+    /* Halves the integral top of stack and rounds half away from zero.  Used to convert a floating-point number to the
+     * *closest* decimal, e.g. 2.3 to 2.30 rather than to 2.29. */
+    auto emit_halve_and_round = [this]() {
+        emit_Dup();
+        add_and_emit_load(int64_t(2));
+        emit_Mod_i();
+        emit_Add_i();
+        add_and_emit_load(int64_t(2));
+        emit_Div_i();
+    };
+
     if (auto n_from = cast<const Numeric>(from)) {
         auto n_to = as<const Numeric>(to);
 
@@ -770,9 +781,10 @@ void StackMachine::emit_Cast(const Type *to_ty, const Type *from_ty)
                             return;
 
                         case Numeric::N_Decimal: /* float -> decimal */
-                            add_and_emit_load(float(powi(10L, n_to->scale)));
+                            add_and_emit_load(float(2 * powi(10L, n_to->scale)));
                             emit_Mul_f();
                             emit_Cast_i_f();
+                            emit_halve_and_round();
                             return;
 
                         case Numeric::N_Float: /* float -> double */
@@ -787,9 +799,10 @@ void StackMachine::emit_Cast(const Type *to_ty, const Type *from_ty)
                             return;
 
                         case Numeric::N_Decimal: /* double -> decimal */
-                            add_and_emit_load(double(powi(10L, n_to->scale)));
+                            add_and_emit_load(double(2 * powi(10L, n_to->scale)));
                             emit_Mul_d();
                             emit_Cast_i_d();
+                            emit_halve_and_round();
                             return;
 
                         case Numeric::N_Float:
-- 
2.43.0


From 2380cb317fed1e2d2c018c772c637e2685a29120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 029/133] fix: let ORDER BY accept an empty input

No SortingData is created if no tuples are produced and downcasting a nullptr with as<> aborts.
---
 src/backend/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index a0f1e04..ce40edc 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1643,7 +1643,7 @@ void Interpreter::operator()(const SortingOperator &op)
 {
     op.child(0)->accept(*this);
 
-    auto data = as<SortingData>(op.data());
+    auto data = cast<SortingData>(op.data());
     if (not data) // no tuples produced
         return;
 
-- 
2.43.0


From bba65fb711840b0c25a3323f70ef82e8ef34756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 030/133] fix: let ORDER BY evaluate scalar functions on the
 attributes they require

---
 src/IR/Optimizer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index c910895..90966cf 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -115,6 +115,7 @@ Optimizer::compute_projections_required_for_order_by(const std::vector<projectio
     /* Collect all required `Designator`s which are not included in the projection. */
     auto get_required_designator = overloaded {
         [&](const ast::Designator &d) -> void {
+            if (not d.type()->is_primitive()) return; // the name of a function
             if (auto t = std::get_if<const Expr*>(&d.target())) { // refers to another expression?
                 /*----- Find `t` in projections. -----*/
                 for (auto &[expr, _] : projections) {
@@ -135,6 +136,7 @@ Optimizer::compute_projections_required_for_order_by(const std::vector<projectio
             required_projections.emplace_back(d, ThreadSafePooledOptionalString{});
         },
         [&](const ast::FnApplicationExpr &fn) -> void {
+            if (not fn.get_function().is_aggregate()) return; // evaluated on its arguments by the sorting
             /*----- Find `fn` in projections. -----*/
             for (auto &[expr, alias] : projections) {
                 if (not alias.has_value() and fn == expr.get())
-- 
2.43.0


From 2e2ea48c2af87af362b2ba59b479835c3af3507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 031/133] fix: bound the initial capacity of the Interpreter's
 hash table

The estimated cardinality of a join is by default the size of the Cartesian product: joins of large relations threw because the
hash table could not be allocated.
---
 src/backend/Interpreter.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index ce40edc..4fbcecb 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1524,8 +1524,12 @@ void Interpreter::operator()(const JoinOperator &op)
         /* Perform simple hash join. */
         auto data = new SimpleHashJoinData(op);
         op.data(data);
-        if (op.has_info())
-            data->ht.resize(op.info().estimated_cardinality);
+        if (op.has_info()) {
+            /* The estimate is only a hint, the HT grows on demand.  Estimating a Cartesian product easily exceeds the
+             * available memory. */
+            constexpr std::size_t MAX_INITIAL_CAPACITY = 1UL << 16;
+            data->ht.resize(std::min<std::size_t>(op.info().estimated_cardinality, MAX_INITIAL_CAPACITY));
+        }
         op.child(0)->accept(*this); // build HT on LHS
         if (data->ht.size() == 0) // no tuples produced
             return;
-- 
2.43.0


From 3c791c016ab3fb9d351554889576e67aca1783fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 032/133] fix: begin iterating a hash map at its first occupied
 entry

---
 src/util/container/RefCountingHashMap.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util/container/RefCountingHashMap.hpp b/src/util/container/RefCountingHashMap.hpp
index e8f1f12..d61c99c 100644
--- a/src/util/container/RefCountingHashMap.hpp
+++ b/src/util/container/RefCountingHashMap.hpp
@@ -203,9 +203,9 @@ struct RefCountingHashMap
     }
     size_type watermark_high() const { return watermark_high_; }
 
-    iterator begin() { return iterator(*this, table_); }
+    iterator begin() { return iterator(*this, first_occupied()); }
     iterator end()   { return iterator(*this, table_ + capacity()); }
-    const_iterator begin() const { return const_iterator(*this, table_); }
+    const_iterator begin() const { return const_iterator(*this, first_occupied()); }
     const_iterator end()   const { return const_iterator(*this, table_ + capacity()); }
     const_iterator cbegin() const { return begin(); }
     const_iterator cend()   const { return end(); }
@@ -395,6 +395,13 @@ M_LCOV_EXCL_START
 M_LCOV_EXCL_STOP
 
     private:
+    /** Returns a pointer to the first occupied entry, or to the end of the table if there is none. */
+    entry_type * first_occupied() const {
+        auto p = table_;
+        for (auto end = table_ + capacity_; p != end and p->probe_length == 0; ++p);
+        return p;
+    }
+
     static entry_type * allocate(size_type n, entry_type *hint = nullptr) {
         auto p = static_cast<entry_type*>(realloc(hint, n * sizeof(entry_type)));
         if (p == nullptr)
-- 
2.43.0


From b5460f4cf77e0d9ee3a39e338c7b205e4bbdf4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 033/133] fix: terminate the enumeration of subsets of size 0

---
 include/mutable/util/ADT.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mutable/util/ADT.hpp b/include/mutable/util/ADT.hpp
index 6dc3ed0..34ca6a7 100644
--- a/include/mutable/util/ADT.hpp
+++ b/include/mutable/util/ADT.hpp
@@ -858,6 +858,10 @@ struct GospersHack
     /** Advance to the next subset. */
     GospersHack & operator++() {
         const uint64_t s(set_);
+        if (s == 0) [[unlikely]] { // the empty set is the only subset of size 0
+            set_ = ~SmallBitset(0);
+            return *this;
+        }
 #ifdef __BMI__
         const uint64_t c = _blsi_u64(s); // BMI1: extract lowest set isolated bit -> c is a power of 2
 #else
-- 
2.43.0


From f6b61808f9865c7b63d7cc76208d7d3320e816c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 034/133] fix: widen the operands of the StackMachine's opcodes

An operand was truncated to 8 bits, such that expressions or tables needing
more than 255 values in the context loaded wrong values.
---
 src/backend/StackMachine.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/backend/StackMachine.hpp b/src/backend/StackMachine.hpp
index 86b2bfe..d8c068b 100644
--- a/src/backend/StackMachine.hpp
+++ b/src/backend/StackMachine.hpp
@@ -29,7 +29,7 @@ struct StackMachine
 
     static constexpr std::size_t SIZE_OF_MEMORY = 4 * 1024; // 4 KiB
 
-    enum class Opcode : uint8_t
+    enum class Opcode : uint32_t // wide enough for operands, e.g. indices of values in the context
     {
 #define M_OPCODE(CODE, ...) CODE,
 #include "tables/Opcodes.tbl"
@@ -129,14 +129,14 @@ struct StackMachine
      * the opcode `Pop`, we will define a function `emit_Pop()`, that appends the `Pop` opcode to the current opcode
      * sequence.  For opcodes that require an argument, a function with the respective parameter is defined and that
      * parameter is inserted into the opcode sequence.  For example, the opcode `Ld_Ctx` requires a single parameter
-     * with the index of the context value.  The macro will expand to the method `emit_Ld_Ctx(uint8_t idx)`, that first
+     * with the index of the context value.  The macro will expand to the method `emit_Ld_Ctx(uint32_t idx)`, that first
      * appends the `Ld_Ctx` opcode to the opcode sequence and then appends the `idx` parameter to the opcode sequence.
      */
 #define SELECT(XXX, _1, _2, _3, FN, ...) FN(__VA_ARGS__)
 #define ARGS_0(XXX, ...)
-#define ARGS_1(I, XXX, ARG0, ...) uint8_t ARG0
-#define ARGS_2(I, II, XXX, ARG0, ARG1, ...) uint8_t ARG0, uint8_t ARG1
-#define ARGS_3(I, II, III, XXX, ARG0, ARG1, ARG2, ...) uint8_t ARG0, uint8_t ARG1, uint8_t ARG2
+#define ARGS_1(I, XXX, ARG0, ...) uint32_t ARG0
+#define ARGS_2(I, II, XXX, ARG0, ARG1, ...) uint32_t ARG0, uint32_t ARG1
+#define ARGS_3(I, II, III, XXX, ARG0, ARG1, ARG2, ...) uint32_t ARG0, uint32_t ARG1, uint32_t ARG2
 #define ARGS(...) SELECT(__VA_ARGS__, ARGS_3, ARGS_2, ARGS_1, ARGS_0, __VA_ARGS__)
 #define PUSH_0(XXX, ...)
 #define PUSH_1(I, XXX, ARG0, ...) \
-- 
2.43.0


From 256a80145a979d9fbbaab8a32af96f692bcca2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:54 +0000
Subject: [PATCH 035/133] fix: do not overflow the memory of the StackMachine

Loading or concatenating strings longer than the machine's 4 KiB of memory
wrote past its end.
---
 src/backend/StackMachine.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index 3738f47..1064b4a 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -1,10 +1,14 @@
 #include "backend/StackMachine.hpp"
 
 #include "backend/Interpreter.hpp"
+#include <algorithm>
+#include <cstring>
 #include <ctime>
 #include <functional>
+#include <memory>
 #include <mutable/util/fn.hpp>
 #include <regex>
+#include <vector>
 
 
 using namespace m;
@@ -884,6 +888,16 @@ void StackMachine::operator()(Tuple **tuples) const
     top_ = 0; // points to the top of the stack, i.e. the top-most entry
     op_ = ops.cbegin();
     auto p_mem = memory_; // pointer to free memory; used like a linear allocator
+    const uint8_t *p_mem_end = memory_ + SIZE_OF_MEMORY;
+    std::vector<std::unique_ptr<uint8_t[]>> overflow_memory; // used when the machine's memory is exhausted
+
+    /* Makes sure that at least `size` bytes are available at `p_mem`. */
+    auto reserve = [&](std::size_t size) {
+        if (std::size_t(p_mem_end - p_mem) >= size) return;
+        const std::size_t capacity = std::max(size, SIZE_OF_MEMORY);
+        p_mem = overflow_memory.emplace_back(std::make_unique<uint8_t[]>(capacity)).get();
+        p_mem_end = p_mem + capacity;
+    };
 
 #define NEXT goto *labels[std::size_t(*op_++)]
 
@@ -1154,6 +1168,7 @@ Ld_s: {
     uint64_t length = TOP.as_i();
     POP();
     void *ptr = TOP.as_p();
+    reserve(length + 1);
     strncpy(reinterpret_cast<char*>(p_mem), reinterpret_cast<char*>(ptr), length);
     p_mem[length] = 0; // always add terminating NUL byte, no matter whether this is a CHAR or VARCHAR
     TOP = p_mem; // a pointer
@@ -1308,6 +1323,7 @@ Cat_s: {
     }
 
     M_insist(not rhs_is_null and not lhs_is_null);
+    reserve(strlen(lhs.as<char*>()) + strlen(rhs.as<char*>()) + 1);
     char *dest = reinterpret_cast<char*>(p_mem);
     TOP = dest;
     /* Append LHS. */
-- 
2.43.0


From f429eba84f57d1086c54b1a33e0dec0dcd54c343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 036/133] fix: print decimals with their decimal point

The unscaled integer was printed by the Print operator, and negative decimals
were garbled by Value::print().
---
 include/mutable/util/fn.hpp  | 12 ++++++++++++
 src/IR/Tuple.cpp             | 11 ++---------
 src/backend/StackMachine.cpp | 15 +++++++++++++++
 src/backend/V8Engine.cpp     |  4 +++-
 src/tables/Opcodes.tbl       |  1 +
 5 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/include/mutable/util/fn.hpp b/include/mutable/util/fn.hpp
index a349555..ba0b6f6 100644
--- a/include/mutable/util/fn.hpp
+++ b/include/mutable/util/fn.hpp
@@ -438,6 +438,18 @@ T M_EXPORT powi(const T base, const U exp)
     }
 }
 
+/** Prints the decimal number `value` * 10^-`scale`, e.g. `-5` with scale `2` is printed as `-0.05`. */
+inline void M_EXPORT print_decimal(std::ostream &out, int64_t value, uint32_t scale)
+{
+    const uint64_t abs = value < 0 ? -uint64_t(value) : uint64_t(value);
+    const uint64_t div = powi(uint64_t(10), scale);
+    std::ostringstream oss;
+    if (value < 0) oss << '-';
+    oss << abs / div;
+    if (scale) oss << '.' << std::setfill('0') << std::setw(scale) << abs % div;
+    out << oss.str();
+}
+
 template<typename T>
 void M_EXPORT setbit(T *bytes, bool value, uint32_t n)
 {
diff --git a/src/IR/Tuple.cpp b/src/IR/Tuple.cpp
index 644f525..11bd188 100644
--- a/src/IR/Tuple.cpp
+++ b/src/IR/Tuple.cpp
@@ -42,16 +42,9 @@ void Value::print(std::ostream &out, const Type &ty) const
                     out << as_i();
                     break;
 
-                case Numeric::N_Decimal: {
-                    const int64_t div = powi(10L, n.scale);
-                    const int64_t pre = as_i() / div;
-                    const int64_t post = as_i() % div;
-                    out << pre << '.';
-                    auto old_fill = out.fill('0');
-                    out << std::setw(n.scale) << post;
-                    out.fill(old_fill);
+                case Numeric::N_Decimal:
+                    print_decimal(out, as_i(), n.scale);
                     break;
-                }
 
                 case Numeric::N_Float:
                     if (n.size() == 32)
diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index 1064b4a..d201a25 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -727,6 +727,8 @@ void StackMachine::emit_Print(std::size_t ostream_index, const Type *ty)
     } else if (ty->is_date_time()) {
         emit(StackMachine::STR_TO_OPCODE.at("Print_datetime"));
         emit(static_cast<Opcode>(ostream_index));
+    } else if (ty->is_decimal()) {
+        emit_Print_dec(ostream_index, as<const Numeric>(ty)->scale);
     } else {
         std::ostringstream oss;
         oss << "Print" << tystr(as<const PrimitiveType>(ty));
@@ -1109,6 +1111,18 @@ Print_b: {
 }
 NEXT;
 
+Print_dec: {
+    M_insist(top_ >= 1);
+    std::size_t index = std::size_t(*op_++);
+    uint32_t scale = uint32_t(*op_++);
+    std::ostream &out = *reinterpret_cast<std::ostream*>(context_[index].as_p());
+    if (TOP_IS_NULL)
+        out << "NULL";
+    else
+        print_decimal(out, TOP.as_i(), scale);
+}
+NEXT;
+
 Print_date: {
     std::size_t index = std::size_t(*op_++);
     std::ostream &out = *reinterpret_cast<std::ostream*>(context_[index].as_p());
@@ -1611,6 +1625,7 @@ void StackMachine::dump(std::ostream &out) const
                 /* fall through */
 
             /* Opcodes with *two* operands. */
+            case Opcode::Print_dec:
             case Opcode::Ld_Tup:
             case Opcode::St_Tup_Null:
             case Opcode::St_Tup_i:
diff --git a/src/backend/V8Engine.cpp b/src/backend/V8Engine.cpp
index 0352fe0..970aea4 100644
--- a/src/backend/V8Engine.cpp
+++ b/src/backend/V8Engine.cpp
@@ -370,9 +370,11 @@ void m::wasm::detail::read_result_set(const v8::FunctionCallbackInfo<v8::Value>
             [&](const Numeric &n) {
                 switch (n.kind) {
                     case Numeric::N_Int:
-                    case Numeric::N_Decimal:
                         out << value.as_i();
                         break;
+                    case Numeric::N_Decimal:
+                        print_decimal(out, value.as_i(), n.scale);
+                        break;
                     case Numeric::N_Float:
                         if (n.size() <= 32) {
                             const auto old_precision = out.precision(std::numeric_limits<float>::max_digits10 - 1);
diff --git a/src/tables/Opcodes.tbl b/src/tables/Opcodes.tbl
index 27db9a9..026aad7 100644
--- a/src/tables/Opcodes.tbl
+++ b/src/tables/Opcodes.tbl
@@ -78,6 +78,7 @@ M_OPCODE(Print_f, 0, index)
 M_OPCODE(Print_d, 0, index)
 M_OPCODE(Print_s, 0, index)
 M_OPCODE(Print_b, 0, index)
+M_OPCODE(Print_dec, 0, index, scale)
 M_OPCODE(Print_date, 0, index)
 M_OPCODE(Print_datetime, 0, index)
 
-- 
2.43.0


From f440241884f7b5512912e7b92e580bb13c1a0e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 037/133] fix: print strings up to their terminating NUL byte

---
 src/IR/Tuple.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/IR/Tuple.cpp b/src/IR/Tuple.cpp
index 11bd188..c030b30 100644
--- a/src/IR/Tuple.cpp
+++ b/src/IR/Tuple.cpp
@@ -1,5 +1,6 @@
 #include <mutable/IR/Tuple.hpp>
 
+#include <cstring>
 #include <ctime>
 #include <mutable/catalog/Schema.hpp>
 #include <mutable/catalog/Type.hpp>
@@ -18,7 +19,12 @@ void Value::print(std::ostream &out, const Type &ty) const
 {
     visit(overloaded {
         [this, &out](const Boolean&) { out << (as_b() ? "TRUE" : "FALSE"); },
-        [this, &out](const CharacterSequence &cs) { out << '"'; out.write(as<const char*>(), cs.length); out << '"'; },
+        [this, &out](const CharacterSequence &cs) {
+            auto str = as<const char*>();
+            out << '"';
+            out.write(str, strnlen(str, cs.length)); // do not read beyond the end of a shorter string
+            out << '"';
+        },
         [this, &out](const Date&) {
             const int32_t date = as_i(); // signed because year is signed
             const auto oldfill = out.fill('0');
-- 
2.43.0


From bac0add1e4b3bb4aba67f3b5a43579c11efd9f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 038/133] fix: align attributes in data layouts without
 attribute reordering

With --no-attribute-reordering attributes were placed at misaligned offsets, in
row layouts even at offsets that are not byte-aligned.  Also account for padding
when computing the number of blocks needed by a row.
---
 src/storage/DataLayoutFactory.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/storage/DataLayoutFactory.cpp b/src/storage/DataLayoutFactory.cpp
index 0454bf5..7337acd 100644
--- a/src/storage/DataLayoutFactory.cpp
+++ b/src/storage/DataLayoutFactory.cpp
@@ -99,6 +99,8 @@ DataLayout RowLayoutFactory::make(std::vector<const Type*> types, std::size_t nu
 
     for (std::size_t idx = 0; idx != types.size(); ++idx) {
         const auto mapped_idx = indices[idx];
+        if (uint64_t rem = offset_in_bits % types[mapped_idx]->alignment(); rem)
+            offset_in_bits += types[mapped_idx]->alignment() - rem; // padding, required if attributes are not reordered
         offsets[mapped_idx] = offset_in_bits;
         offset_in_bits += types[mapped_idx]->size();
         alignment_in_bits = std::max(alignment_in_bits, types[mapped_idx]->alignment());
@@ -141,7 +143,7 @@ DataLayout PAXLayoutFactory::make(std::vector<const Type*> types, std::size_t nu
     uint64_t offset_in_bits = 0;
     uint64_t min_size_in_bytes = std::numeric_limits<uint64_t>::max();
     uint64_t alignment_in_bits = 8;
-    std::size_t num_not_byte_aligned = 0;
+    uint64_t max_padding_in_bits = 0; // worst case padding, because columns in a PAX block must be aligned
 
     for (std::size_t idx = 0; idx != types.size(); ++idx) {
         const auto mapped_idx = indices[idx];
@@ -150,15 +152,15 @@ DataLayout PAXLayoutFactory::make(std::vector<const Type*> types, std::size_t nu
         min_size_in_bytes = std::min(min_size_in_bytes, (types[mapped_idx]->size() + 7) / 8);
         alignment_in_bits = std::max(alignment_in_bits, types[mapped_idx]->alignment());
         if (types[mapped_idx]->size() % 8)
-            ++num_not_byte_aligned;
+            max_padding_in_bits += 7; // the next column must be byte aligned
+        if (not options::attribute_reordering)
+            max_padding_in_bits += types[mapped_idx]->alignment() - 1; // this column must be aligned
     }
 
     /*----- Compute NULL bitmap offset in a virtual row. -----*/
     const uint64_t null_bitmap_size_in_bits =
         options::remove_null_bitmap ? 0 : std::max(ceil_to_pow_2(types.size()), 8UL); // add padding to support SIMDfication
     offsets[types.size()] = offset_in_bits;
-    if (null_bitmap_size_in_bits % 8)
-        ++num_not_byte_aligned;
 
     /*----- Compute number of rows per block and number of blocks per row. -----*/
     const auto num_simd_lanes = std::max<std::size_t>(1, 16 / min_size_in_bytes); // possible number of SIMD lanes
@@ -171,23 +173,25 @@ DataLayout PAXLayoutFactory::make(std::vector<const Type*> types, std::size_t nu
         num_blocks_per_row = 1;
     } else {
         const uint64_t row_size_in_bits = offsets[types.size()] + null_bitmap_size_in_bits; // space for NULL bitmap
-        /* Compute number of rows within a PAX block. Consider worst case padding of 7 bits (because each column within
-         * a PAX block must be byte aligned) for every possibly not byte-aligned attribute column. Null bitmap column is
-         * ignored since it is the last column. */
-        num_rows_per_block = std::max<std::size_t>(1, (num_bytes_ * 8 - num_not_byte_aligned * 7) / row_size_in_bits);
+        /* Compute number of rows within a PAX block. Consider the worst case padding. */
+        const uint64_t max_payload_in_bits = num_bytes_ * 8 - std::min(max_padding_in_bits, num_bytes_ * 8);
+        num_rows_per_block = std::max<std::size_t>(1, max_payload_in_bits / row_size_in_bits);
         if (num_rows_per_block > num_simd_lanes)
             num_rows_per_block =
                 (num_rows_per_block / num_simd_lanes) * num_simd_lanes; // floor to multiple of possible number of SIMD lanes
         if (options::pax_pack_one_tuple_less and num_rows_per_block > 1)
             --num_rows_per_block;
-        num_blocks_per_row = (row_size_in_bits + num_bytes_ * 8 - 1UL) / (num_bytes_ * 8);
+        num_blocks_per_row = (row_size_in_bits + max_padding_in_bits + num_bytes_ * 8 - 1UL) / (num_bytes_ * 8);
     }
 
     /*----- Compute column offsets. -----*/
     uint64_t running_padding = 0;
     for (std::size_t idx = 0; idx != types.size(); ++idx) {
         const auto mapped_idx = indices[idx];
-        offsets[mapped_idx] = offsets[mapped_idx] * num_rows_per_block + running_padding;
+        const uint64_t offset_without_padding = offsets[mapped_idx] * num_rows_per_block;
+        if (uint64_t rem = (offset_without_padding + running_padding) % types[mapped_idx]->alignment(); rem)
+            running_padding += types[mapped_idx]->alignment() - rem; // required if attributes are not reordered
+        offsets[mapped_idx] = offset_without_padding + running_padding;
         M_insist(offsets[mapped_idx] % 8 == 0, "attribute column must be byte aligned");
         if (uint64_t bit_offset = (types[mapped_idx]->size() * num_rows_per_block) % 8; bit_offset)
             running_padding += 8UL - bit_offset;
-- 
2.43.0


From c21bdfcd67e0380c670e51a2d11139ab8fe4a372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 039/133] fix: set exactly the NULL bits of the requested rows

The bits of rows sharing a byte with the first or last requested row were
masked by the complementary number of bits.
---
 src/storage/store_manip.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/storage/store_manip.cpp b/src/storage/store_manip.cpp
index a49923d..dbf2c51 100644
--- a/src/storage/store_manip.cpp
+++ b/src/storage/store_manip.cpp
@@ -173,9 +173,9 @@ void m::set_all_null(uint8_t *column_ptr, std::size_t num_attrs, std::size_t beg
 
     M_insist(begin_bytes != end_bytes, "the `begin`-th row and `end`-th row must be in different bytes");
 
-    /* Set the `begin_bits` most significant bits to 1. */
+    /* Set all but the `begin_bits` least significant bits to 1. */
     if (begin_bits) {
-        *(column_ptr + begin_bytes) |= ~((1U << (8U - begin_bits)) - 1U); // set respective bits to 1
+        *(column_ptr + begin_bytes) |= ~((1U << begin_bits) - 1U); // set respective bits to 1
         ++begin_bytes; // advance to first byte which can be written entirely
     }
 
@@ -198,7 +198,7 @@ void m::set_all_not_null(uint8_t *column_ptr, std::size_t num_attrs, std::size_t
 
     M_insist(begin_bytes != end_bytes, "the `begin`-th row and `end`-th row must be in different bytes");
 
-    /* Set the `begin_bits` most significant bits to 0. */
+    /* Set all but the `begin_bits` least significant bits to 0. */
     if (begin_bits) {
         *(column_ptr + begin_bytes) &= (1U << begin_bits) - 1U; // set respective bits to 0
         ++begin_bytes; // advance to first byte which can be written entirely
@@ -206,7 +206,7 @@ void m::set_all_not_null(uint8_t *column_ptr, std::size_t num_attrs, std::size_t
 
     /* Set the `end_bits` least significant bits to 0. */
     if (end_bits)
-        *(column_ptr + end_bytes) &= ~((1U << (8U - end_bits)) - 1U); // set respective bits to 0
+        *(column_ptr + end_bytes) &= ~((1U << end_bits) - 1U); // set respective bits to 0
 
     const auto num_bytes = end_bytes - begin_bytes;
     std::memset(column_ptr + begin_bytes, uint8_t(0), num_bytes);
-- 
2.43.0


From 06c2d5cdaec1a5a27ac122081a95c8318fa2182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 040/133] fix: allow generating data for rows other than the
 first

---
 src/storage/store_manip.cpp | 2 +-
 src/storage/store_manip.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/store_manip.cpp b/src/storage/store_manip.cpp
index dbf2c51..c42ad5d 100644
--- a/src/storage/store_manip.cpp
+++ b/src/storage/store_manip.cpp
@@ -91,7 +91,7 @@ void generate_numeric_column(T *column_ptr, std::size_t num_distinct_values, std
         }
     }
 exit:
-    M_insist(ptr - column_ptr == long(count), "incorrect number of elements written");
+    M_insist(ptr - column_ptr == long(end), "incorrect number of elements written");
 }
 
 template<typename T>
diff --git a/src/storage/store_manip.hpp b/src/storage/store_manip.hpp
index 227d515..3a7bbe4 100644
--- a/src/storage/store_manip.hpp
+++ b/src/storage/store_manip.hpp
@@ -45,7 +45,7 @@ fill_uniform(T *column_ptr, std::vector<T> values, std::size_t begin, std::size_
         }
     }
 exit:
-    M_insist(ptr - column_ptr == long(count), "incorrect number of elements written");
+    M_insist(ptr - column_ptr == long(end), "incorrect number of elements written");
 }
 
 /** Generates data for the column at address `column_ptr` from `begin`-th row (including) to `end`-th row (excluding)
-- 
2.43.0


From ff08742314c13f51b3eaafd878959b9cfbba7db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 041/133] fix: pass the range of new rows in order

---
 src/catalog/CostModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/CostModel.cpp b/src/catalog/CostModel.cpp
index 549ef89..11d16a3 100644
--- a/src/catalog/CostModel.cpp
+++ b/src/catalog/CostModel.cpp
@@ -239,7 +239,7 @@ std::pair<Eigen::MatrixXd, Eigen::VectorXd> generate_training_suite_group_by()
                 /* Grow store. */
                 for (unsigned i = old_cardinality; i != cardinality; ++i) table.store().append();
                 M_insist(table.store().num_rows() == cardinality);
-                set_all_not_null(null_bitmap_column, table.num_attrs(), cardinality, old_cardinality);
+                set_all_not_null(null_bitmap_column, table.num_attrs(), old_cardinality, cardinality);
                 generate_primary_keys(id_column, *table[0UL].type, old_cardinality, cardinality);
             }
             M_insist(table.store().num_rows() == cardinality);
-- 
2.43.0


From 86bd225ee6927f35ae4f8c30ebdcdaff4303dd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 042/133] fix: let the PaxStore hold rows larger than a block

---
 src/storage/PaxStore.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/storage/PaxStore.cpp b/src/storage/PaxStore.cpp
index 61b76ad..d99d84c 100644
--- a/src/storage/PaxStore.cpp
+++ b/src/storage/PaxStore.cpp
@@ -62,7 +62,7 @@ void PaxStore::compute_block_offsets()
     /* Compute number of rows within a PAX block. Consider worst case padding of 7 bits (because each column within
      * a PAX block must be byte-aligned) for every possibly not byte-aligned attribute column. Null bitmap column is
      * ignored since it is the last column. */
-    num_rows_per_block_ = (block_size_ * 8 - num_not_byte_aligned * 7) / row_size_;
+    num_rows_per_block_ = (block_size_ * 8UL - std::min(num_not_byte_aligned * 7, block_size_ * 8UL)) / row_size_;
 #else
     /* Compute number of rows within a PAX block. Assert that the stride jumps to the next block are whole multiples
      * of a byte by packing potentially less rows into one block. Therefore, padding can be ignored. */
@@ -85,7 +85,13 @@ void PaxStore::compute_block_offsets()
     M_insist(offsets_[num_attrs] + num_attrs * num_rows_per_block_ <= block_size_ * 8);
 
     /* Compute capacity. */
-    capacity_ = (ALLOCATION_SIZE / block_size_) * num_rows_per_block_;
+    if (num_rows_per_block_) {
+        capacity_ = (ALLOCATION_SIZE / block_size_) * num_rows_per_block_;
+    } else { // a single row does not fit into a block and hence spans multiple blocks
+        const uint64_t row_size_in_bytes = (row_size_ + num_not_byte_aligned * 7 + 7) / 8;
+        const uint64_t num_blocks_per_row = (row_size_in_bytes + block_size_ - 1) / block_size_;
+        capacity_ = ALLOCATION_SIZE / (num_blocks_per_row * block_size_);
+    }
 
     delete[] attrs;
 }
-- 
2.43.0


From 10f553703fc61985e02f95ccba7005a6013d6f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 043/133] fix: let decimals of one digit occupy a whole byte

---
 include/mutable/catalog/Type.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mutable/catalog/Type.hpp b/include/mutable/catalog/Type.hpp
index 931dad6..dae4122 100644
--- a/include/mutable/catalog/Type.hpp
+++ b/include/mutable/catalog/Type.hpp
@@ -434,7 +434,8 @@ private:
         switch (kind) {
             case N_Int: return 8 * precision;
             case N_Float: return precision;
-            case N_Decimal: return ceil_to_pow_2(uint32_t(std::ceil(DECIMAL_TO_BINARY_DIGITS * precision)));
+            case N_Decimal: // at least one byte
+                return std::max<uint32_t>(8, ceil_to_pow_2(uint32_t(std::ceil(DECIMAL_TO_BINARY_DIGITS * precision))));
         }
         M_unreachable("illegal kind");
     }
-- 
2.43.0


From 967de96da2d0d04a2b565b1ed4e3a01cf7737c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 044/133] fix: make PAX layouts with one row per block

---
 src/storage/DataLayoutFactory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/DataLayoutFactory.cpp b/src/storage/DataLayoutFactory.cpp
index 7337acd..089a69d 100644
--- a/src/storage/DataLayoutFactory.cpp
+++ b/src/storage/DataLayoutFactory.cpp
@@ -217,13 +217,13 @@ DataLayout PAXLayoutFactory::make(std::vector<const Type*> types, std::size_t nu
     DataLayout layout(num_tuples);
     auto &pax_block = layout.add_inode(num_rows_per_block, num_blocks_per_row * block_size_in_bits);
     for (std::size_t idx = 0; idx != types.size(); ++idx)
-        pax_block.add_leaf(types[idx], idx, offsets[idx], types[idx]->size());
+        pax_block.add_leaf(types[idx], idx, offsets[idx], num_rows_per_block == 1 ? 0 : types[idx]->size());
     if (not options::remove_null_bitmap) {
         pax_block.add_leaf( // add NULL bitmap
             /* type=           */ Type::Get_Bitmap(Type::TY_Vector, types.size()),
             /* idx=            */ types.size(),
             /* offset_in_bits= */ offsets[types.size()],
-            /* stride_in_bits= */ null_bitmap_size_in_bits
+            /* stride_in_bits= */ num_rows_per_block == 1 ? 0 : null_bitmap_size_in_bits
         );
     }
 
-- 
2.43.0


From 6cd4715f9531f857ba0da54b6d5f0f20931cba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:01 +0000
Subject: [PATCH 045/133] fix: enumerate connected subgraphs depth-first, such
 that DPccp considers subproblems before the problems that contain them

---
 include/mutable/util/AdjacencyMatrix.hpp | 27 ++++++++++++------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/include/mutable/util/AdjacencyMatrix.hpp b/include/mutable/util/AdjacencyMatrix.hpp
index 60255e0..6dcbe3d 100644
--- a/include/mutable/util/AdjacencyMatrix.hpp
+++ b/include/mutable/util/AdjacencyMatrix.hpp
@@ -159,23 +159,22 @@ exit:
     {
         source = source & super; // restrict sources to vertices in `super`
 
-        std::deque<std::pair<SmallBitset, SmallBitset>> Q;
+        /* Extend `S` by the non-empty subsets of its neighbors.  All of them are emitted *before* any of them is extended
+         * further, such that every CSG is emitted after all the CSGs it contains. */
+        auto extend = [this, super, &callback](SmallBitset S, SmallBitset X_old, auto &extend_ref) -> void {
+            const SmallBitset N = (neighbors(S) & super) - X_old;
+            const SmallBitset X_new = X_old | N;
+            for (SmallBitset n = least_subset(N); bool(n); n = next_subset(n, N)) // enumerate 2^{neighbors of S}
+                callback(S | n);
+            for (SmallBitset n = least_subset(N); bool(n); n = next_subset(n, N))
+                extend_ref(S | n, X_new, extend_ref);
+        };
+
         for (auto it = source.begin(); it != source.end(); ++it) {
             const SmallBitset I = it.as_set();
             M_insist(I.is_singleton());
-            Q.emplace_back(I, source & ~I.mask_to_lo()); // exclude larger sources
-
-            while (not Q.empty()) {
-                auto [S, X_old] = Q.front();
-                Q.pop_front();
-
-                callback(S);
-
-                const SmallBitset N = (neighbors(S) & super) - X_old;
-                const SmallBitset X_new = X_old | N;
-                for (SmallBitset n = least_subset(N); bool(n); n = next_subset(n, N)) // enumerate 2^{neighbors of S}
-                    Q.emplace_back(S | n, X_new);
-            }
+            callback(I);
+            extend(I, source & ~I.mask_to_lo(), extend); // exclude larger sources
         }
     }
 
-- 
2.43.0


From db14cb9a1a2e4f56f09aec120115ff1458fa2a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:01 +0000
Subject: [PATCH 046/133] fix: do not increase the cost of a state when moving
 it to the beam

---
 include/mutable/util/HeuristicSearch.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mutable/util/HeuristicSearch.hpp b/include/mutable/util/HeuristicSearch.hpp
index 81aebd3..53a1f00 100644
--- a/include/mutable/util/HeuristicSearch.hpp
+++ b/include/mutable/util/HeuristicSearch.hpp
@@ -362,9 +362,10 @@ struct StateManager
                     /*----- The state is in the regular queue and needs to be moved to the beam queue. -----*/
                     if constexpr (HasRegularQueue)
                         it->second.queue->erase(it->second.handle); // erase from regular queue
-                    if (state.g() < it->first.g())
+                    if (state.g() < it->first.g()) {
                         inc_cheaper();
                         it->first.decrease_g(state.parent(), state.g()); // update *g* value
+                    }
                     it->second.handle = beam_queue_.push(&*it); // add to beam queue and update handle
                     it->second.queue = &beam_queue_; // update queue
                     inc_decrease_key();
-- 
2.43.0


From 4746ad3b070665b3d177cb1a83b0dd08c060688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:20 +0000
Subject: [PATCH 047/133] fix: reject dates with missing separators

---
 src/lex/Lexer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lex/Lexer.cpp b/src/lex/Lexer.cpp
index b9ea3fb..f6beaa4 100644
--- a/src/lex/Lexer.cpp
+++ b/src/lex/Lexer.cpp
@@ -235,17 +235,17 @@ Token Lexer::read_date_or_datetime()
 #define DIGITS(num) for (auto i = 0; i < num; ++i) if (is_dec(c_)) push(); else invalid = true;
     accept('-'); // for years BC
     DIGITS(4); // year
-    invalid &= accept('-');
+    invalid |= not accept('-');
     DIGITS(2); // month
-    invalid &= accept('-');
+    invalid |= not accept('-');
     DIGITS(2); // day
 
     if (accept(' ')) {
         datetime = true;
         DIGITS(2) // hours
-        invalid &= accept(':');
+        invalid |= not accept(':');
         DIGITS(2); // minutes
-        invalid &= accept(':');
+        invalid |= not accept(':');
         DIGITS(2); // seconds
     }
 #undef DIGITS
-- 
2.43.0


From 267ec47c5b89459981a93e1947262ed96e90c288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:20 +0000
Subject: [PATCH 048/133] fix: accept the scale zero of a decimal

---
 src/parse/Parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse/Parser.cpp b/src/parse/Parser.cpp
index 9cc8760..f3ffb94 100644
--- a/src/parse/Parser.cpp
+++ b/src/parse/Parser.cpp
@@ -1163,7 +1163,10 @@ const Type * Parser::parse_data_type()
             if (not expect(TK_DEC_INT)) goto error_recovery;
             if (accept(TK_COMMA)) {
                 scale = token();
-                if (not expect(TK_DEC_INT)) goto error_recovery;
+                if (scale == TK_OCT_INT and streq(*scale.text, "0")) // a scale of zero is lexed as octal constant
+                    consume();
+                else if (not expect(TK_DEC_INT))
+                    goto error_recovery;
             }
             if (not expect(TK_RPAR)) goto error_recovery;
             errno = 0;
-- 
2.43.0


From 43ec464ec22ca455bea3a372deeebc6d9b8d3d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:20 +0000
Subject: [PATCH 049/133] fix: print key fields of an index in parentheses
 where the grammar requires them

---
 src/parse/ASTPrinter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse/ASTPrinter.cpp b/src/parse/ASTPrinter.cpp
index 1cd79e9..c488709 100644
--- a/src/parse/ASTPrinter.cpp
+++ b/src/parse/ASTPrinter.cpp
@@ -253,7 +253,13 @@ void ASTPrinter::operator()(Const<CreateIndexStmt> &s)
         auto &field = *it;
         if (it != s.key_fields.cbegin()) out << ',';
         out << "\n    ";
+        /* A key field is either an identifier or an expression in parentheses. */
+        auto D = cast<const Designator>(field.get());
+        const bool needs_parentheses = (D and D->has_explicit_table_name()) or is<const Constant>(*field) or
+                                       is<const FnApplicationExpr>(*field);
+        if (needs_parentheses) out << '(';
         (*this)(*field);
+        if (needs_parentheses) out << ')';
     }
     out << "\n);";
 }
-- 
2.43.0


From 36e97e256735c94924d008fda1a5a0f76a0609ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:20 +0000
Subject: [PATCH 050/133] fix: print formulae in conjunctive normal form as SQL

---
 src/IR/CNF.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/IR/CNF.cpp b/src/IR/CNF.cpp
index 8ce3c18..83d7bd0 100644
--- a/src/IR/CNF.cpp
+++ b/src/IR/CNF.cpp
@@ -112,13 +112,15 @@ void cnf::Clause::to_sql(std::ostream &out) const
             return;
 
         case 1:
-            out << *begin();
+            begin()->to_sql(out);
             return;
 
         default:
             for (auto it = begin(); it != end(); ++it) {
                 if (it != begin()) out << " OR ";
-                out << '(' << *it << ')';
+                out << '(';
+                it->to_sql(out);
+                out << ')';
             }
             return;
     }
@@ -132,13 +134,15 @@ void CNF::to_sql(std::ostream &out) const
             return;
 
         case 1:
-            out << *begin();
+            begin()->to_sql(out);
             return;
 
         default:
             for (auto it = begin(); it != end(); ++it) {
                 if (it != begin()) out << " AND ";
-                out << *it;
+                out << '(';
+                it->to_sql(out);
+                out << ')';
             }
             return;
     }
-- 
2.43.0


From c7dab8691cefe7659d6100bb72951e5e9b8ce358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 051/133] fix: do not analyze a statement with syntax errors in
 a session

---
 src/catalog/SerialScheduler.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index e229a6e..1a6e50e 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -145,12 +145,14 @@ void SerialScheduler::schedule_thread()
          * run without every restarting mutable. */
         if (next_start_time < 0) [[unlikely]] M_unreachable("Transaction timestamp overflow");
 
-        ast::Sema sema(diag);
-        bool err = diag.num_errors() > 0; // parser errors
+        if (diag.num_errors() > 0) { // parser errors
+            promise.set_value(false);
+            continue;
+        }
 
-        diag.clear();
+        ast::Sema sema(diag);
         auto cmd = sema.analyze(std::move(ast));
-        err |= diag.num_errors() > 0; // sema errors
+        const bool err = diag.num_errors() > 0; // sema errors
 
         M_insist(not err == bool(cmd), "when there are no errors, Sema must have returned a command");
         if (not err and cmd) {
-- 
2.43.0


From b911b02e7665adc33ea8a6799a6e84701972f0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 052/133] fix: read tokens when they are needed, to attribute
 lexical errors to their statement

---
 src/parse/Parser.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/parse/Parser.hpp b/src/parse/Parser.hpp
index 714928b..c8f00f0 100644
--- a/src/parse/Parser.hpp
+++ b/src/parse/Parser.hpp
@@ -23,28 +23,33 @@ struct M_EXPORT Parser
 
     private:
     std::array<Token, 2> lookahead_;
+    std::size_t num_lookahead_ = 0; ///< the number of tokens in `lookahead_`
 
     public:
     explicit Parser(Lexer &lexer)
         : lexer(lexer)
         , diag(lexer.diag)
         , lookahead_({Token::CreateArtificial(), Token::CreateArtificial()})
-    {
-        consume();
-        consume();
-    }
+    { }
 
+    /** Returns the `Idx`-th token of the lookahead.  Tokens are read only when they are needed, such that the lexer
+     * reports errors while the statement containing the erroneous token is being parsed. */
     template<unsigned Idx = 0>
-    const Token & token() { return lookahead_[Idx]; }
+    const Token & token() {
+        static_assert(Idx < std::tuple_size_v<decltype(lookahead_)>);
+        while (num_lookahead_ <= Idx)
+            lookahead_[num_lookahead_++] = lexer.next();
+        return lookahead_[Idx];
+    }
 
     bool is(const TokenType tt) { return token() == tt; }
     bool no(const TokenType tt) { return token() != tt; }
 
     Token consume() {
         auto old = token();
-        for (std::size_t i = 1; i != lookahead_.size(); ++i)
+        for (std::size_t i = 1; i != num_lookahead_; ++i)
             lookahead_[i - 1] = lookahead_[i];
-        lookahead_.back() = lexer.next();
+        --num_lookahead_;
         return old;
     }
 
-- 
2.43.0


From cd0eaf0bc00d59cba3f84ac6ca6430bf0b1d0f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 053/133] fix: stop recovering from a syntax error at the end
 of the statement

---
 src/tables/FollowSet.tbl | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tables/FollowSet.tbl b/src/tables/FollowSet.tbl
index 7e1a831..be0f47b 100644
--- a/src/tables/FollowSet.tbl
+++ b/src/tables/FollowSet.tbl
@@ -8,20 +8,20 @@ M_FOLLOW(ADDITIVE_EXPRESSION, ({ { TK_PLUS }, { TK_Limit }, { TK_MINUS }, { TK_D
 M_FOLLOW(COMMAND, ({ { TK_Create }, { TK_Insert }, { TK_Select }, { TK_Import }, { TK_Drop }, { TK_Update }, { TK_SEMICOL }, { TK_IDENTIFIER }, { TK_Delete }, { TK_Use } }))
 M_FOLLOW(COMPARATIVE_EXPRESSION, ({ { TK_Limit }, { TK_Having }, { TK_As }, { TK_Descending }, { TK_RPAR }, { TK_Ascending }, { TK_IDENTIFIER }, { TK_And }, { TK_Where }, { TK_Order }, { TK_SEMICOL }, { TK_COMMA }, { TK_Group }, { TK_From }, { TK_Or } }))
 M_FOLLOW(COMPARISON_OPERATOR, ({ { TK_HEX_FLOAT }, { TK_PLUS }, { TK_True }, { TK_STRING_LITERAL }, { TK_MINUS }, { TK_DATE_TIME }, { TK_DEC_FLOAT }, { TK_DATE }, { TK_DEC_INT }, { TK_TILDE }, { TK_LPAR }, { TK_HEX_INT }, { TK_False }, { TK_IDENTIFIER }, { TK_OCT_INT } }))
-M_FOLLOW(CONSTRAINT, ({ { TK_Unique }, { TK_Primary }, { TK_Check }, { TK_References }, { TK_COMMA }, { TK_Not }, { TK_RPAR } }))
+M_FOLLOW(CONSTRAINT, ({ { TK_Unique }, { TK_Primary }, { TK_Check }, { TK_References }, { TK_COMMA }, { TK_Not }, { TK_RPAR }, { TK_SEMICOL } }))
 M_FOLLOW(CREATE_STATEMENT, ({ { TK_SEMICOL } }))
 M_FOLLOW(CREATE_DATABASE_STATEMENT, ({ { TK_SEMICOL } }))
 M_FOLLOW(CREATE_TABLE_STATEMENT, ({ { TK_SEMICOL } }))
-M_FOLLOW(DATA_TYPE, ({ { TK_Unique }, { TK_Primary }, { TK_Check }, { TK_References }, { TK_COMMA }, { TK_Not }, { TK_RPAR } }))
+M_FOLLOW(DATA_TYPE, ({ { TK_Unique }, { TK_Primary }, { TK_Check }, { TK_References }, { TK_COMMA }, { TK_Not }, { TK_RPAR }, { TK_SEMICOL } }))
 M_FOLLOW(DELETE_STATEMENT, ({ { TK_SEMICOL } }))
 M_FOLLOW(DESIGNATOR, ({ { TK_PLUS }, { TK_Limit }, { TK_MINUS }, { TK_SLASH }, { TK_PERCENT }, { TK_Descending }, { TK_LPAR }, { TK_LESS_EQUAL }, { TK_GREATER_EQUAL }, { TK_GREATER }, { TK_And }, { TK_Order }, { TK_COMMA }, { TK_Where }, { TK_IDENTIFIER }, { TK_Group }, { TK_EQUAL }, { TK_Or }, { TK_Having }, { TK_As }, { TK_RPAR }, { TK_LESS }, { TK_Ascending }, { TK_ASTERISK }, { TK_SEMICOL }, { TK_BANG_EQUAL }, { TK_From } }))
 M_FOLLOW(DROP_STATEMENT, ({ { TK_SEMICOL } }))
 M_FOLLOW(DROP_DATABASE_STATEMENT, ({ { TK_SEMICOL } }))
 M_FOLLOW(DROP_TABLE_STATEMENT, ({ { TK_SEMICOL } }))
 M_FOLLOW(EXPRESSION, ({ { TK_Limit }, { TK_Having }, { TK_As }, { TK_Descending }, { TK_RPAR }, { TK_Ascending }, { TK_IDENTIFIER }, { TK_Where }, { TK_Order }, { TK_SEMICOL }, { TK_COMMA }, { TK_Group }, { TK_From } }))
-M_FOLLOW(FROM_CLAUSE, ({ { TK_Limit }, { TK_Having }, { TK_Where }, { TK_Order }, { TK_Group }, { TK_RPAR } }))
-M_FOLLOW(GROUP_BY_CLAUSE, ({ { TK_Order }, { TK_Limit }, { TK_Having }, { TK_RPAR } }))
-M_FOLLOW(HAVING_CLAUSE, ({ { TK_Order }, { TK_Limit }, { TK_RPAR } }))
+M_FOLLOW(FROM_CLAUSE, ({ { TK_Limit }, { TK_Having }, { TK_Where }, { TK_Order }, { TK_Group }, { TK_RPAR }, { TK_SEMICOL } }))
+M_FOLLOW(GROUP_BY_CLAUSE, ({ { TK_Order }, { TK_Limit }, { TK_Having }, { TK_RPAR }, { TK_SEMICOL } }))
+M_FOLLOW(HAVING_CLAUSE, ({ { TK_Order }, { TK_Limit }, { TK_RPAR }, { TK_SEMICOL } }))
 M_FOLLOW(IMPORT_STATEMENT, ({ { TK_SEMICOL } }))
 M_FOLLOW(INSERT_STATEMENT, ({ { TK_SEMICOL } }))
 M_FOLLOW(LIMIT_CLAUSE, ({ { TK_SEMICOL }, { TK_RPAR } }))
@@ -29,13 +29,13 @@ M_FOLLOW(LOGICAL_AND_EXPRESSION, ({ { TK_Limit }, { TK_Having }, { TK_As }, { TK
 M_FOLLOW(LOGICAL_NOT_EXPRESSION, ({ { TK_Limit }, { TK_Having }, { TK_As }, { TK_Descending }, { TK_RPAR }, { TK_Ascending }, { TK_IDENTIFIER }, { TK_And }, { TK_Where }, { TK_Order }, { TK_SEMICOL }, { TK_COMMA }, { TK_Group }, { TK_From }, { TK_Or } }))
 M_FOLLOW(LOGICAL_OR_EXPRESSION, ({ { TK_Limit }, { TK_Having }, { TK_As }, { TK_Descending }, { TK_RPAR }, { TK_Ascending }, { TK_IDENTIFIER }, { TK_Where }, { TK_Order }, { TK_SEMICOL }, { TK_COMMA }, { TK_Group }, { TK_From }, { TK_Or } }))
 M_FOLLOW(MULTIPLICATIVE_EXPRESSION, ({ { TK_PLUS }, { TK_Limit }, { TK_MINUS }, { TK_SLASH }, { TK_PERCENT }, { TK_Descending }, { TK_LESS_EQUAL }, { TK_GREATER_EQUAL }, { TK_GREATER }, { TK_And }, { TK_Order }, { TK_COMMA }, { TK_Where }, { TK_IDENTIFIER }, { TK_Group }, { TK_EQUAL }, { TK_Or }, { TK_Having }, { TK_As }, { TK_RPAR }, { TK_LESS }, { TK_Ascending }, { TK_ASTERISK }, { TK_SEMICOL }, { TK_BANG_EQUAL }, { TK_From } }))
-M_FOLLOW(ORDER_BY_CLAUSE, ({ { TK_Limit }, { TK_RPAR } }))
+M_FOLLOW(ORDER_BY_CLAUSE, ({ { TK_Limit }, { TK_RPAR }, { TK_SEMICOL } }))
 M_FOLLOW(POSTFIX_EXPRESSION, ({ { TK_PLUS }, { TK_Limit }, { TK_MINUS }, { TK_SLASH }, { TK_PERCENT }, { TK_Descending }, { TK_LPAR }, { TK_LESS_EQUAL }, { TK_GREATER_EQUAL }, { TK_GREATER }, { TK_And }, { TK_Order }, { TK_COMMA }, { TK_Where }, { TK_IDENTIFIER }, { TK_Group }, { TK_EQUAL }, { TK_Or }, { TK_Having }, { TK_As }, { TK_RPAR }, { TK_LESS }, { TK_Ascending }, { TK_ASTERISK }, { TK_SEMICOL }, { TK_BANG_EQUAL }, { TK_From } }))
 M_FOLLOW(PRIMARY_EXPRESSION, ({ { TK_PLUS }, { TK_Limit }, { TK_MINUS }, { TK_SLASH }, { TK_PERCENT }, { TK_Descending }, { TK_LPAR }, { TK_LESS_EQUAL }, { TK_GREATER_EQUAL }, { TK_GREATER }, { TK_And }, { TK_Order }, { TK_COMMA }, { TK_Where }, { TK_IDENTIFIER }, { TK_Group }, { TK_EQUAL }, { TK_Or }, { TK_Having }, { TK_As }, { TK_RPAR }, { TK_LESS }, { TK_Ascending }, { TK_ASTERISK }, { TK_SEMICOL }, { TK_BANG_EQUAL }, { TK_From } }))
-M_FOLLOW(SELECT_CLAUSE, ({ { TK_Limit }, { TK_Having }, { TK_RPAR }, { TK_Where }, { TK_Order }, { TK_Group }, { TK_From } }))
+M_FOLLOW(SELECT_CLAUSE, ({ { TK_Limit }, { TK_Having }, { TK_RPAR }, { TK_Where }, { TK_Order }, { TK_Group }, { TK_From }, { TK_SEMICOL } }))
 M_FOLLOW(SELECT_STATEMENT, ({ { TK_SEMICOL }, { TK_RPAR } }))
 M_FOLLOW(STATEMENT, ({ { TK_SEMICOL } }))
-M_FOLLOW(TABLE_OR_SELECT_STATEMENT, ({ { TK_Limit }, { TK_Having }, { TK_Where }, { TK_Order }, { TK_COMMA }, { TK_Group } }))
+M_FOLLOW(TABLE_OR_SELECT_STATEMENT, ({ { TK_Limit }, { TK_Having }, { TK_Where }, { TK_Order }, { TK_COMMA }, { TK_Group }, { TK_SEMICOL } }))
 M_FOLLOW(TUPLE, ({ { TK_SEMICOL }, { TK_COMMA } }))
 M_FOLLOW(UNARY_EXPRESSION, ({ { TK_PLUS }, { TK_Limit }, { TK_MINUS }, { TK_SLASH }, { TK_PERCENT }, { TK_Descending }, { TK_LESS_EQUAL }, { TK_GREATER_EQUAL }, { TK_GREATER }, { TK_And }, { TK_Order }, { TK_COMMA }, { TK_Where }, { TK_IDENTIFIER }, { TK_Group }, { TK_EQUAL }, { TK_Or }, { TK_Having }, { TK_As }, { TK_RPAR }, { TK_LESS }, { TK_Ascending }, { TK_ASTERISK }, { TK_SEMICOL }, { TK_BANG_EQUAL }, { TK_From } }))
 M_FOLLOW(UPDATE_CLAUSE, ({ { TK_SEMICOL }, { TK_Where } }))
-- 
2.43.0


From f748c470409b1946f1d31bdd2ccd8cf42f17d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 054/133] fix: report UPDATE and DELETE as unsupported instead
 of aborting

---
 src/parse/Sema.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index f3d4036..7ebf688 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1900,16 +1900,14 @@ void Sema::operator()(UpdateStmt &s)
 {
     RequireContext RCtx(this, s);
     /* TODO */
-    (void) s;
-    M_unreachable("Not implemented.");
+    diag.e(s.table_name.pos) << "UPDATE statements are not yet supported.\n";
 }
 
 void Sema::operator()(DeleteStmt &s)
 {
     RequireContext RCtx(this, s);
     /* TODO */
-    (void) s;
-    M_unreachable("Not implemented.");
+    diag.e(s.table_name.pos) << "DELETE statements are not yet supported.\n";
 }
 
 void Sema::operator()(DSVImportStmt &s)
-- 
2.43.0


From 1736cb277b3c0d2fb8507a38ccefa064a8d7514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 055/133] fix: report an unavailable index method as an error

---
 src/parse/Sema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 7ebf688..a2a8fa9 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1721,7 +1721,7 @@ void Sema::operator()(CreateIndexStmt &s)
         if constexpr(requires { typename Index<Key>; }) {
             return std::make_unique<Index<Key>>();
         } else {
-            diag(s.method.pos) << "Index method not available for given key type.\n";
+            diag.e(s.method.pos) << "Index method not available for given key type.\n";
             return nullptr;
         }
     };
-- 
2.43.0


From 65c1c53046dccfaed0652da612bcb7a2815ff039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 056/133] fix: do not dereference null when calling an
 expression that is not a function name

---
 src/parse/Sema.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index a2a8fa9..71882e0 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -507,8 +507,8 @@ void Sema::operator()(FnApplicationExpr &e)
     /* Analyze function name. */
     auto d = cast<Designator>(e.fn.get());
     if (not d or not d->is_identifier()) {
-        diag.e(d->attr_name.pos) << *d << " is not a valid function.\n";
-        d->type_ = e.type_ = Type::Get_Error();
+        diag.e(e.fn->tok.pos) << *e.fn << " is not a valid function.\n";
+        e.fn->type_ = e.type_ = Type::Get_Error();
         return;
     }
     M_insist(bool(d));
-- 
2.43.0


From 95859ac4c56d2645a1aa8cd5f2beff99a499a496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 057/133] fix: handle expressions of type NULL in clauses

---
 src/parse/Sema.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 71882e0..9854603 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -355,7 +355,14 @@ void Sema::operator()(Designator &e)
         const Type * operator()(const Attribute *attr) const { return attr->type; }
         const Type * operator()(const Expr *expr) const { return expr->type_; }
     };
-    const PrimitiveType *pt = cast<const PrimitiveType>(std::visit(get_type(), e.target_));
+    const Type *target_type = std::visit(get_type(), e.target_);
+    const PrimitiveType *pt = cast<const PrimitiveType>(target_type);
+    if (not pt) {
+        if (not target_type->is_error()) // otherwise, the error has already been reported
+            diag.e(e.attr_name.pos) << e << " is not of primitive type.\n";
+        e.type_ = Type::Get_Error();
+        return;
+    }
     e.type_ = pt;
 
     if (not is_result)
@@ -1069,7 +1076,7 @@ void Sema::operator()(SelectClause &c)
                 if (auto ty = cast<const PrimitiveType>(d->type()))
                     d->type_ = ty->as_scalar();
                 else
-                    M_insist(d->type()->is_error(), "grouping key must be of primitive type");
+                    M_insist(diag.num_errors(), "grouping key must be of primitive type");
                 auto attr_name = d->attr_name.text.assert_not_none();
                 auto &ref = c.expanded_select_all.emplace_back(std::move(d));
                 (*this)(*ref);
@@ -1236,8 +1243,10 @@ void Sema::operator()(FromClause &c)
             /* Add the results of the nested statement to the list of sources. */
             auto res = Ctx.sources.emplace(src.alias.text, std::make_pair(std::move(results), source_counter++));
             /* Convert scalar results to vectorials. */
-            for (auto &[_, result] : inner_ctx.results)
-                result.expr().type_ = as<const PrimitiveType>(result.expr().type())->as_vectorial();
+            for (auto &[_, result] : inner_ctx.results) {
+                if (auto pt = cast<const PrimitiveType>(result.expr().type()))
+                    result.expr().type_ = pt->as_vectorial();
+            }
             /* Check if the table name is already in use in other contexts. */
             bool unique = true;
             for (std::size_t i = 0; i < contexts_.size() - 1; ++i) {
@@ -1364,7 +1373,13 @@ void Sema::operator()(OrderByClause &c)
         if (e->contains_free_variables())
             diag.e(e->tok.pos) << *e << " contains free variable(s) (not yet supported).\n";
 
-        auto pt = as<const PrimitiveType>(e->type());
+        auto pt = cast<const PrimitiveType>(e->type());
+
+        /* Can only order by expressions of primitive type. */
+        if (not pt) {
+            diag.e(c.tok.pos) << "Cannot order by " << *e << ", has invalid type.\n";
+            continue;
+        }
 
         if (Ctx.needs_grouping) { // w/ grouping
             /* If we grouped, the grouping keys now have scalar type. */
@@ -1862,7 +1877,7 @@ void Sema::operator()(InsertStmt &s)
                 case InsertStmt::I_Expr: {
                     (*this)(*v.second);
                     if (v.second->type()->is_error()) continue;
-                    auto ty = as<const PrimitiveType>(v.second->type());
+                    auto ty = v.second->type();
                     if (ty->is_boolean() and attr.type->is_boolean())
                         break;
                     if (ty->is_character_sequence() and attr.type->is_character_sequence())
-- 
2.43.0


From 62563ebe8b6034fa0b3f182c5c81947960e9da4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 058/133] fix: do not destroy constraints and key fields while
 analyzing them

---
 src/parse/Sema.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 9854603..5feeff2 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1568,7 +1568,7 @@ void Sema::operator()(CreateTableStmt &s)
                 T->at(attribute_name).not_nullable = true;
             }
 
-            if (auto check = cast<CheckConditionConstraint>(c)) {
+            if (auto check = cast<CheckConditionConstraint>(c.get())) {
                 /* Verify that the type of the condition is boolean. */
                 /* TODO if the condition uses already mentioned attributes, we must add them to the sema context before
                  * invoking semantic analysis of the condition! */
@@ -1578,7 +1578,7 @@ void Sema::operator()(CreateTableStmt &s)
                     diag.e(check->tok.pos) << "Condition " << *check->cond << " is an invalid CHECK constraint.\n";
             }
 
-            if (auto ref = cast<ReferenceConstraint>(c)) {
+            if (auto ref = cast<ReferenceConstraint>(c.get())) {
                 if (has_reference)
                     diag.e(ref->tok.pos) << "Attribute " << attr->name.text << " must not have multiple references.\n";
                 has_reference = true;
@@ -1727,7 +1727,7 @@ void Sema::operator()(CreateIndexStmt &s)
             return;
         }
     }
-    auto attribute_name = cast<Designator>(s.key_fields.front())->attr_name.text.assert_not_none();
+    auto attribute_name = as<Designator>(*s.key_fields.front()).attr_name.text.assert_not_none();
     auto &attribute = table.at(attribute_name);
 
     /* Build index based on selected method and key type. */
-- 
2.43.0


From 66a3370d5508164f62c7bf0d0958444072a75301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 059/133] fix: reject function applications in INSERT instead
 of aborting

---
 src/parse/Sema.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 5feeff2..9b308e1 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1862,6 +1862,7 @@ void Sema::operator()(InsertStmt &s)
     }
 
     /* Analyze values. */
+    get_context().stage = SemaContext::S_Where; // functions are allowed, aggregates are not
     for (std::size_t i = 0; i != s.tuples.size(); ++i) {
         auto &t = s.tuples[i];
         if (t.empty())
-- 
2.43.0


From 2493af5e97adfdd07bb71d3c7486e6a065ca7cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 060/133] fix: name the default index method

---
 src/parse/Sema.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 9b308e1..c4221e3 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1685,8 +1685,7 @@ void Sema::operator()(CreateIndexStmt &s)
 
     /* Check that the index method exists. */
     if (not s.method) { // if method is not set, set to default
-        s.method = Token::CreateArtificial(TK_Default);
-        s.method.pos = s.table_name.pos;
+        s.method = Token(s.table_name.pos, C.pool("DEFAULT"), TK_Default);
     }
     switch(s.method.type) {
         case TK_Default: // ok
-- 
2.43.0


From 603cbaa7fe737cd6114b2e09705cbc4bf09469be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 061/133] fix: do not add an invalid character to a string that
 ends in an escape

---
 src/lex/Lexer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lex/Lexer.cpp b/src/lex/Lexer.cpp
index f6beaa4..184230f 100644
--- a/src/lex/Lexer.cpp
+++ b/src/lex/Lexer.cpp
@@ -193,6 +193,9 @@ Token Lexer::read_string_literal()
         if (c_ == '\\') { // escape character
             push();
             switch (c_) {
+                case EOF:
+                    break;
+
                 default:
                     /* invalid escape sequence */
                     invalid = true;
-- 
2.43.0


From 346e11e765f901fb4e503edb6bbb4adc8173d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:47 +0000
Subject: [PATCH 062/133] fix: reject NUL bytes in string literals

---
 src/lex/Lexer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lex/Lexer.cpp b/src/lex/Lexer.cpp
index 184230f..cd0481a 100644
--- a/src/lex/Lexer.cpp
+++ b/src/lex/Lexer.cpp
@@ -189,7 +189,9 @@ Token Lexer::read_string_literal()
 {
     push(); // initial '"'
     bool invalid = false;
+    bool has_nul = false; // the text of a token cannot contain a NUL byte
     while (EOF != c_ and '"' != c_) {
+        has_nul |= c_ == '\0';
         if (c_ == '\\') { // escape character
             push();
             switch (c_) {
@@ -197,6 +199,7 @@ Token Lexer::read_string_literal()
                     break;
 
                 default:
+                    has_nul |= c_ == '\0';
                     /* invalid escape sequence */
                     invalid = true;
                     /* fallthrough */
@@ -221,6 +224,11 @@ Token Lexer::read_string_literal()
     push(); // terminal '"'
     const auto str = internalize();
 
+    if (has_nul) {
+        diag.e(start_) << "invalid NUL byte in string literal\n";
+        return Token(start_, std::move(str), TK_ERROR);
+    }
+
     if (invalid) {
         diag.e(start_) << "invalid escape sequence in string literal '" << str << "'\n";
         return Token(start_, std::move(str), TK_ERROR);
-- 
2.43.0


From a616dd7b1f52ba7eb940ddc71abb9ab0e21b7e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:47 +0000
Subject: [PATCH 063/133] fix: allow asking whether an erroneous nested
 statement is constant

---
 src/parse/AST.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/parse/AST.cpp b/src/parse/AST.cpp
index ce8ad3f..0b64fa7 100644
--- a/src/parse/AST.cpp
+++ b/src/parse/AST.cpp
@@ -261,20 +261,14 @@ bool QueryExpr::is_constant() const
     auto &stmt = as<const SelectStmt>(*query);
     if (stmt.from) return false;
     auto &select = as<const SelectClause>(*stmt.select);
-    M_insist(select.select.size() == 1);
-    if (not select.select[0].first->is_constant())
-        return false;
-    return true;
+    return std::all_of(select.select.begin(), select.select.end(), [](auto &s) { return s.first->is_constant(); });
 }
 
 bool QueryExpr::can_be_null() const
 {
     auto &stmt = as<const SelectStmt>(*query);
     auto &select = as<const SelectClause>(*stmt.select);
-    M_insist(select.select.size() == 1);
-    if (select.select[0].first->can_be_null())
-        return true;
-    return false;
+    return std::any_of(select.select.begin(), select.select.end(), [](auto &s) { return s.first->can_be_null(); });
 }
 
 
-- 
2.43.0


From 78eaa187021695ffb2e8b9310a531a1c0cc1cedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:18 +0000
Subject: [PATCH 064/133] fix: reject expressions that mix aggregates and
 columns without grouping

---
 src/parse/Sema.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index c4221e3..4263dfb 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -140,6 +140,25 @@ void Sema::compose_of(std::unique_ptr<ast::Expr> &ptr, const std::vector<std::re
     visit(recurse, *ptr, m::tag<m::ast::ConstASTExprVisitor>()); // attempt to recursively compose expr
 }
 
+/** Returns `true` iff `expr` computes an aggregate function, directly or by referring to an expression that does. */
+static bool contains_aggregate(const ast::Expr &expr)
+{
+    bool found = false;
+    auto visitor = overloaded {
+        [](auto&) -> void { },
+        [&found](const ast::Designator &d) -> void {
+            if (auto target = std::get_if<const Expr*>(&d.target()); target and d.type()->is_primitive() and
+                                                                     as<const PrimitiveType>(d.type())->is_scalar())
+                found = found or contains_aggregate(**target);
+        },
+        [&found](const ast::FnApplicationExpr &fn) -> void {
+            found = found or (fn.has_function() and fn.get_function().is_aggregate());
+        },
+    };
+    visit(visitor, expr, m::tag<m::ast::ConstPreOrderExprVisitor>());
+    return found;
+}
+
 /*===== Expr =========================================================================================================*/
 
 void Sema::operator()(ErrorExpr &e)
@@ -1156,7 +1175,7 @@ void Sema::operator()(SelectClause &c)
         if (not select_expr.is_constant() and not is<QueryExpr>(select_expr)) {
             auto pt = as<const PrimitiveType>(select_expr.type());
             has_vectorial = has_vectorial or pt->is_vectorial();
-            has_scalar = has_scalar or pt->is_scalar();
+            has_scalar = has_scalar or pt->is_scalar() or contains_aggregate(select_expr); // vectorial part of aggregate?
         }
 
         if (alias) { // SELECT expression has alias?
@@ -1387,7 +1406,7 @@ void Sema::operator()(OrderByClause &c)
                 diag.e(c.tok.pos) << "Cannot order by " << *e << ", expression must be scalar.\n";
         } else { // w/o grouping
             /* If we did not group, the ordering expressions must be vectorial. */
-            if (pt->is_scalar())
+            if (pt->is_scalar() or contains_aggregate(*e))
                 diag.e(c.tok.pos) << "Cannot order by " << *e << ", expression must be vectorial.\n";
         }
     }
-- 
2.43.0


From 15e6280cb424762dcd2fb24cd4bb8af957d7ac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:16 +0000
Subject: [PATCH 065/133] fix: reject ordering the single row of an aggregation
 by columns

---
 src/parse/Sema.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 4263dfb..377f26b 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1383,6 +1383,12 @@ void Sema::operator()(OrderByClause &c)
     SemaContext &Ctx = get_context();
     Ctx.stage = SemaContext::S_OrderBy;
 
+    /* Without grouping, aggregates in the SELECT clause reduce the result to a single tuple. */
+    const bool is_aggregated = not Ctx.needs_grouping and
+        std::any_of(Ctx.results.begin(), Ctx.results.end(), [](auto &res) {
+            return contains_aggregate(res.second.expr());
+        });
+
     /* Analyze all ordering expressions. */
     for (auto &o : c.order_by) {
         auto &e = o.first;
@@ -1408,6 +1414,8 @@ void Sema::operator()(OrderByClause &c)
             /* If we did not group, the ordering expressions must be vectorial. */
             if (pt->is_scalar() or contains_aggregate(*e))
                 diag.e(c.tok.pos) << "Cannot order by " << *e << ", expression must be vectorial.\n";
+            else if (is_aggregated)
+                diag.e(c.tok.pos) << "Cannot order by " << *e << ", the aggregated rows are not in the result.\n";
         }
     }
 }
-- 
2.43.0


From 72cd2be72cc2cb8ec5753a3bc8954dd1b294d46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:48 +0000
Subject: [PATCH 066/133] fix: do not mix constants selected by a nested query
 with aggregates

---
 src/parse/Sema.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 377f26b..725aab5 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1172,10 +1172,11 @@ void Sema::operator()(SelectClause &c)
 
         /* Constants and scalar values of nested queries can be broadcast from scalar to vectorial.  We collect the
          * scalar/vector-ness information of each expression in the SELECT clause. */
-        if (not select_expr.is_constant() and not is<QueryExpr>(select_expr)) {
-            auto pt = as<const PrimitiveType>(select_expr.type());
-            has_vectorial = has_vectorial or pt->is_vectorial();
-            has_scalar = has_scalar or pt->is_scalar() or contains_aggregate(select_expr); // vectorial part of aggregate?
+        if (not is<QueryExpr>(select_expr)) {
+            auto pt = cast<const PrimitiveType>(select_expr.type()); // `nullptr` for NULL
+            has_vectorial = has_vectorial or (pt and pt->is_vectorial()); // includes constants selected by a nested query
+            if (not select_expr.is_constant())
+                has_scalar = has_scalar or (pt and pt->is_scalar()) or contains_aggregate(select_expr);
         }
 
         if (alias) { // SELECT expression has alias?
-- 
2.43.0


From e934a032b8f410145241fd91db55ad97046f8fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 067/133] fix: provide operator information for queries without
 FROM clause

---
 src/IR/Optimizer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/IR/Optimizer.cpp b/src/IR/Optimizer.cpp
index 90966cf..ba9725e 100644
--- a/src/IR/Optimizer.cpp
+++ b/src/IR/Optimizer.cpp
@@ -204,7 +204,12 @@ std::pair<std::unique_ptr<Producer>, PlanTable> Optimizer::optimize_with_plantab
     if (num_sources == 0) {
         PT.get_final().cost = 0; // no sources → no cost
         PT.get_final().model = CE.empty_model(); // XXX: should rather be 1 (single tuple) than empty
-        return { std::make_unique<ProjectionOperator>(G.projections()), std::move(PT) };
+        auto projection = std::make_unique<ProjectionOperator>(G.projections());
+        auto info = std::make_unique<OperatorInformation>();
+        info->subproblem = Subproblem::All(num_sources);
+        info->estimated_cardinality = 1; // single tuple
+        projection->info(std::move(info));
+        return { std::move(projection), std::move(PT) };
     }
 
     /*----- Initialize plan table and compute plans for data sources. -----*/
-- 
2.43.0


From a1e2fa36ff4a8ee584343db34186eabdf5610106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 068/133] fix: reject decimals of more digits than supported

---
 src/parse/Parser.cpp | 4 ++--
 src/parse/Sema.cpp   | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parse/Parser.cpp b/src/parse/Parser.cpp
index f3ffb94..eb170b9 100644
--- a/src/parse/Parser.cpp
+++ b/src/parse/Parser.cpp
@@ -1171,13 +1171,13 @@ const Type * Parser::parse_data_type()
             if (not expect(TK_RPAR)) goto error_recovery;
             errno = 0;
             std::size_t p = strtoul(*(precision.text), nullptr, 10);
-            if (errno) {
+            if (errno or p > std::numeric_limits<unsigned>::max()) {
                 diag.e(precision.pos) << precision.text << " is not a valid precision for a DECIMAL\n";
                 goto error_recovery;
             }
             errno = 0;
             std::size_t s = scale.text.has_value() ? strtoul(*(scale.text), nullptr, 10) : 0;
-            if (errno) {
+            if (errno or s > std::numeric_limits<unsigned>::max()) {
                 diag.e(scale.pos) << scale.text << " is not a valid scale for a DECIMAL\n";
                 goto error_recovery;
             }
diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index 725aab5..c9e7d33 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1557,6 +1557,9 @@ void Sema::operator()(CreateTableStmt &s)
                                    << ".\n";
             return;
         }
+        if (ty->is_decimal() and as<const Numeric>(ty)->precision > Numeric::MAX_DECIMAL_PRECISION)
+            diag.e(attr->name.pos) << "Attribute " << attr->name.text << " exceeds the maximum precision of a decimal of "
+                                   << Numeric::MAX_DECIMAL_PRECISION << " digits.\n";
         attr->type = ty->as_vectorial(); // convert potentially scalar type to vectorial
 
         /* Before we check the constraints, we must add this newly declared attribute to its table, and hence to the
-- 
2.43.0


From 868e6fc0279e51655236e4ddd1affa98fe987326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:22 +0000
Subject: [PATCH 069/133] fix: do not take an erroneous token for the start of
 a nested query

---
 src/parse/Parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/Parser.cpp b/src/parse/Parser.cpp
index eb170b9..efb3946 100644
--- a/src/parse/Parser.cpp
+++ b/src/parse/Parser.cpp
@@ -809,7 +809,8 @@ std::unique_ptr<Clause> Parser::parse_FromClause()
     std::vector<FromClause::from_type> from;
     do {
         Token alias = Token::CreateArtificial();
-        if (accept(TK_LPAR)) {
+        if (token() == TK_LPAR) { // an erroneous token does not start a nested query
+            consume();
             std::unique_ptr<Stmt> S = parse_SelectStmt();
             if (not expect(TK_RPAR))
                 return recover<ErrorClause>(std::move(start), follow_set_FROM_CLAUSE);
-- 
2.43.0


From e7f9c262c8bd306b3cac16cfcc21f24042be2a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:16 +0000
Subject: [PATCH 070/133] fix: do not let an exception of a command terminate
 the scheduler's worker thread

---
 src/catalog/SerialScheduler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index 1a6e50e..b33dc8a 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -157,7 +157,11 @@ void SerialScheduler::schedule_thread()
         M_insist(not err == bool(cmd), "when there are no errors, Sema must have returned a command");
         if (not err and cmd) {
             cmd->transaction(&t);
-            cmd->execute(diag);
+            try {
+                cmd->execute(diag);
+            } catch (const std::exception &e) { // must not terminate the worker thread
+                diag.err() << e.what() << '\n';
+            }
             promise.set_value(true);
             continue;
         }
-- 
2.43.0


From 71888c64f2b77b019004455bb5f4bbf4e9609dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:16 +0000
Subject: [PATCH 071/133] fix: report a command whose execution failed as
 failed

---
 src/catalog/SerialScheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/SerialScheduler.cpp b/src/catalog/SerialScheduler.cpp
index b33dc8a..c0de77c 100644
--- a/src/catalog/SerialScheduler.cpp
+++ b/src/catalog/SerialScheduler.cpp
@@ -162,7 +162,7 @@ void SerialScheduler::schedule_thread()
             } catch (const std::exception &e) { // must not terminate the worker thread
                 diag.err() << e.what() << '\n';
             }
-            promise.set_value(true);
+            promise.set_value(diag.num_errors() == 0);
             continue;
         }
         promise.set_value(false);
-- 
2.43.0


From dd676fa4adbaf51d35131626ebc41fbc00468f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:41 +0000
Subject: [PATCH 072/133] fix: let the timestamp filter of a multi-versioning
 table refer to the table by its alias

---
 src/catalog/Schema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/Schema.cpp b/src/catalog/Schema.cpp
index c6e548e..cc5600a 100644
--- a/src/catalog/Schema.cpp
+++ b/src/catalog/Schema.cpp
@@ -169,7 +169,7 @@ void apply_timestamp_filter(QueryGraph &G)
                                    });
 
             if (it != bt->table().end_hidden()) {
-                ast::Token table_name(pos, bt->table().name(), TK_EOF);
+                ast::Token table_name(pos, ds->name().assert_not_none(), TK_EOF); // refer to the source by its alias
                 /*----- Build AST -----*/
                 // $ts_begin
                 std::unique_ptr<ast::Expr> ts_begin_designator = std::make_unique<ast::Designator>(
-- 
2.43.0


From 744c728f2d5cd9a825d0716098f6534f588987cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:41 +0000
Subject: [PATCH 073/133] fix: filter the versions of tables in nested queries

---
 src/catalog/Schema.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/catalog/Schema.cpp b/src/catalog/Schema.cpp
index cc5600a..26997c6 100644
--- a/src/catalog/Schema.cpp
+++ b/src/catalog/Schema.cpp
@@ -264,6 +264,9 @@ void apply_timestamp_filter(QueryGraph &G)
 
                 G.add_custom_filter(std::move(filter_expr), *ds);
             }
+        } else if (auto q = cast<const Query>(ds.get())) {
+            /* The tables of a nested query must be filtered as well. */
+            apply_timestamp_filter(q->query_graph());
         }
     }
 }
-- 
2.43.0


From 50cab3a5567bc6747e1f57bed20d49ff02d29b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:08 +0000
Subject: [PATCH 074/133] fix: drop a row of a DSV file with too many cells
 instead of leaving it undefined

---
 src/io/DSVReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 1d12b69..71574ce 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -125,6 +125,8 @@ void DSVReader::operator()(std::istream &in, const char *name)
         if (c != EOF and c != '\n') {
             diag.e(pos) << "Expected end of row.\n";
             discard_row();
+            --idx;
+            store.drop(); // drop the malformed row
         } else {
             if (layout != &table.layout()) {
                 /* The data layout was updated, recompile stack machine. */
-- 
2.43.0


From 60a22350c938e85917f41765e7dcc5e32aea70f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:08 +0000
Subject: [PATCH 075/133] fix: import an invalid boolean as NULL, not as the
 value of the previous row

---
 src/io/DSVReader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 71574ce..11c4fc5 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -163,8 +163,10 @@ void DSVReader::operator()(Const<Boolean>&)
         tup.set(col_idx, true);
     else if (streq("FALSE", &buf[0]))
         tup.set(col_idx, false);
-    else
+    else {
         diag.e(pos) << "Expected TRUE or FALSE.\n";
+        tup.null(col_idx);
+    }
 }
 
 void DSVReader::operator()(Const<CharacterSequence>&)
-- 
2.43.0


From 617c2fe1e8097d5ec67de2c6d88f6574e8862406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:08 +0000
Subject: [PATCH 076/133] fix: import an empty last cell as NULL if the file
 does not end with a newline

---
 src/io/DSVReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 11c4fc5..0824c73 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -111,7 +111,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
             }
 
             if (col) { // current cell should be read
-                if ((i == columns.size() - 1 and c == '\n') or (i < columns.size() - 1 and c == config().delimiter)) { // NULL
+                if ((i == columns.size() - 1 and (c == '\n' or c == EOF)) or (i < columns.size() - 1 and c == config().delimiter)) { // NULL
                     tup.null(col->id);
                     continue; // keep delimiter (expected at beginning of each loop)
                 }
-- 
2.43.0


From c57c72adfabaf679da20060dc9f146aa1dda3c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:08 +0000
Subject: [PATCH 077/133] fix: skip exactly one line as header of a DSV file,
 even if it is empty

---
 src/io/DSVReader.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 0824c73..c7abdda 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -79,8 +79,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
         for (auto &attr : table)
             columns.push_back(&attr);
         if (config().skip_header) {
-            in.ignore(std::numeric_limits<std::streamsize>::max(), '\n'); // skip entire line
-            c = '\n';
+            discard_row(); // skip entire line
             step(); // skip newline
         }
     }
-- 
2.43.0


From 591dfd1390bc596736b60b0721e2dbd2a9b4cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:08 +0000
Subject: [PATCH 078/133] fix: reject integers and decimals of a DSV file that
 have no digits or do not fit their type

---
 include/mutable/io/Reader.hpp |  3 ++-
 src/io/DSVReader.cpp          | 39 ++++++++++++++++++++++++-----------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/include/mutable/io/Reader.hpp b/include/mutable/io/Reader.hpp
index ff1fe1d..ecb5eee 100644
--- a/include/mutable/io/Reader.hpp
+++ b/include/mutable/io/Reader.hpp
@@ -130,7 +130,8 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
     }
     void discard_row() { while (c != EOF and c != '\n') { step(); } }
 
-    int64_t read_unsigned_int();
+    /** Reads the digits of an unsigned integer.  Saturates on overflow. */
+    uint64_t read_unsigned_int();
 };
 
 }
diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index c7abdda..0c85882 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -293,15 +293,21 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 is_neg = true;
             else
                 accept('+');
-            int64_t i = read_unsigned_int();
-            if (c != EOF and c != '\n' and c != config().delimiter) {
+            const bool has_digits = is_dec(c);
+            const uint64_t i = read_unsigned_int();
+            if (not has_digits or (c != EOF and c != '\n' and c != config().delimiter)) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in an integer.\n";
                 tup.null(col_idx);
                 while (c != EOF and c != '\n' and c != config().delimiter) step();
                 return;
             }
-            if (is_neg) i = -i;
-            tup.set(col_idx, i);
+            const uint64_t max = (uint64_t(1) << (ty.size() - 1)) - (is_neg ? 0 : 1);
+            if (i > max) {
+                diag.e(pos) << "WARNING: An integer is out of range.\n";
+                tup.null(col_idx);
+                return;
+            }
+            tup.set(col_idx, is_neg ? int64_t(-i) : int64_t(i));
             break;
         }
 
@@ -313,11 +319,13 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 is_neg = true;
             else
                 accept('+');
-            int64_t d = read_unsigned_int();
-            // std::cerr << "Read: " << d;
-            d = d * powi(10, scale);
+            bool has_digits = is_dec(c);
+            const uint64_t pre_dot = read_unsigned_int();
+            const bool is_out_of_range = pre_dot >= powi(uint64_t(10), ty.precision - scale);
+            int64_t d = is_out_of_range ? 0 : pre_dot * powi(uint64_t(10), scale);
             if (accept('.')) {
                 /* Read post dot digits. */
+                has_digits = has_digits or is_dec(c);
                 int64_t post_dot = 0;
                 auto n = scale;
                 while (n > 0 and is_dec(c)) {
@@ -325,17 +333,22 @@ void DSVReader::operator()(Const<Numeric> &ty)
                     step();
                     n--;
                 }
-                post_dot *= powi(10, n);
+                post_dot *= powi(int64_t(10), n);
                 /* Discard further digits */
                 while (is_dec(c)) { step(); }
                 d += d >= 0 ? post_dot : -post_dot;
             }
-            if (c != EOF and c != '\n' and c != config().delimiter) {
+            if (not has_digits or (c != EOF and c != '\n' and c != config().delimiter)) {
                 diag.e(pos) << "WARNING: Unexpected characters encountered in a decimal.\n";
                 tup.null(col_idx);
                 while (c != EOF and c != '\n' and c != config().delimiter) step();
                 return;
             }
+            if (is_out_of_range) {
+                diag.e(pos) << "WARNING: A decimal is out of range.\n";
+                tup.null(col_idx);
+                return;
+            }
             if (is_neg) d = -d;
             tup.set(col_idx, d);
             break;
@@ -376,11 +389,13 @@ void DSVReader::operator()(Const<NoneType>&) { M_unreachable("invalid type"); }
 void DSVReader::operator()(Const<Bitmap>&) { M_unreachable("invalid type"); }
 void DSVReader::operator()(Const<FnType>&) { M_unreachable("invalid type"); }
 
-int64_t DSVReader::read_unsigned_int()
+uint64_t DSVReader::read_unsigned_int()
 {
-    int64_t i = 0;
+    constexpr uint64_t MAX = std::numeric_limits<uint64_t>::max();
+    uint64_t i = 0;
     while (is_dec(c)) {
-        i = 10 * i + c - '0';
+        const uint64_t digit = c - '0';
+        i = i > (MAX - digit) / 10 ? MAX : 10 * i + digit; // saturate
         step();
     }
     return i;
-- 
2.43.0


From 3bdbefd579a9ee29c41e7383f19fb41393e25fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:08 +0000
Subject: [PATCH 079/133] fix: clamp floating-point numbers of a DSV file to
 the range of their type

---
 src/io/DSVReader.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 0c85882..47fe651 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -4,6 +4,7 @@
 #include "backend/StackMachine.hpp"
 #include <cctype>
 #include <cerrno>
+#include <cmath>
 #include <exception>
 #include <iterator>
 #include <limits>
@@ -368,12 +369,13 @@ void DSVReader::operator()(Const<Numeric> &ty)
                 tup.null(col_idx);
                 return;
             }
-            if ( errno == ERANGE and ( d == HUGE_VAL or d == HUGE_VALF or d == HUGE_VALL ) ) {
+            const double max = ty.is_float() ? std::numeric_limits<float>::max() : std::numeric_limits<double>::max();
+            if ((errno == ERANGE or std::isfinite(d)) and d > max) {
                 diag.w(pos) << "WARNING: A floating-point number is larger than the maximum value.\n";
-                d = std::numeric_limits<double>::max();
-            } else if ( errno == ERANGE and (d == -HUGE_VAL or d == -HUGE_VALF or d == -HUGE_VALL ) ) {
+                d = max;
+            } else if ((errno == ERANGE or std::isfinite(d)) and d < -max) {
                 diag.w(pos) << "WARNING: A floating-point number is smaller than the minimum value.\n";
-                d = std::numeric_limits<double>::min();
+                d = -max;
             }
             if (ty.is_float())
                 tup.set(col_idx, float(d));
-- 
2.43.0


From 24eb2b67729634ac3a2df1758c279939cc54d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:23 +0000
Subject: [PATCH 080/133] fix: do not take byte 0xFF of a DSV file for the end
 of the file

---
 include/mutable/io/Reader.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mutable/io/Reader.hpp b/include/mutable/io/Reader.hpp
index ecb5eee..2fec44a 100644
--- a/include/mutable/io/Reader.hpp
+++ b/include/mutable/io/Reader.hpp
@@ -71,7 +71,7 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
     Config cfg_;
 
     Position pos;
-    char c;
+    int c; ///< the current character or EOF
     std::istream *in = nullptr;
     std::vector<char> buf;
     Tuple tup; ///< intermediate tuple to store values of a row
@@ -113,7 +113,8 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
             default:
                 pos.column++;
         }
-        return c = in->get();
+        const int next = in->get();
+        return c = next == 0xFF ? next : char(next); // characters have the value of a `char`, but 0xFF is distinct from EOF
     };
 
     void push() { buf.push_back(c); step(); }
-- 
2.43.0


From ea896995a158f891a6f2cc5ade12e4c6fc1fc243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:23 +0000
Subject: [PATCH 081/133] fix: do not read past the end of a DSV file that ends
 with an escape character

---
 src/io/DSVReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 47fe651..4ff75ba 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -196,7 +196,7 @@ void DSVReader::operator()(Const<CharacterSequence>&)
                     break;
                 } else if (c == config().escape) {
                     step();
-                    push();
+                    if (c != EOF) push();
                 } else {
                     push();
                 }
-- 
2.43.0


From b1b8e3c690032cd9ad17a2ef14083562c2d8abee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:23 +0000
Subject: [PATCH 082/133] fix: skip cells of unknown columns of a DSV file as a
 whole, even with quotes and newlines in strings

---
 include/mutable/io/Reader.hpp | 16 ++++++++++++++++
 src/io/DSVReader.cpp          |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/mutable/io/Reader.hpp b/include/mutable/io/Reader.hpp
index 2fec44a..18cd0db 100644
--- a/include/mutable/io/Reader.hpp
+++ b/include/mutable/io/Reader.hpp
@@ -129,6 +129,22 @@ struct M_EXPORT DSVReader : Reader, ConstTypeVisitor
         } else
             while (c != EOF and c != '\n' and c != config().delimiter) { step(); }
     }
+    /** Discards a cell with arbitrary contents, in particular a quoted string with escaped quotes. */
+    void skip_cell() {
+        if (accept(config().quote)) {
+            while (c != EOF) {
+                if (c == config().quote) {
+                    step();
+                    if (config().escape != config().quote or c != config().quote)
+                        break; // end of quoted string
+                } else if (c == config().escape) {
+                    step();
+                }
+                if (c != EOF) step();
+            }
+        }
+        while (c != EOF and c != '\n' and c != config().delimiter) { step(); }
+    }
     void discard_row() { while (c != EOF and c != '\n') { step(); } }
 
     /** Reads the digits of an unsigned integer.  Saturates on overflow. */
diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 4ff75ba..6724edc 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -119,7 +119,7 @@ void DSVReader::operator()(std::istream &in, const char *name)
                 (*this)(*col->type); // dynamic dispatch based on column type
                 discard_cell(); // discard remainder of the cell
             } else {
-                discard_cell();
+                skip_cell();
             }
         }
         if (c != EOF and c != '\n') {
-- 
2.43.0


From fb9f9bfad336862aa81060f66b14374c9ce0a764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:23 +0000
Subject: [PATCH 083/133] fix: reject dates and times of a DSV file that do not
 exist

---
 src/io/DSVReader.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index 6724edc..a08b8e9 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -220,6 +220,28 @@ void DSVReader::operator()(Const<CharacterSequence>&)
     tup.set(col_idx, C.pool(&buf[0]));
 }
 
+namespace {
+
+/** Returns true iff `date`, of form `d'YYYY-MM-DD`, has a valid year, month, and day. */
+bool is_valid_date(const char *date)
+{
+    int year, month, day;
+    if (3 != sscanf(date, "d'%d-%d-%d", &year, &month, &day)) return false;
+    if (year == 0 or month < 1 or month > 12 or day < 1) return false;
+    if (month == 2) return day <= 29;
+    return day <= (month == 4 or month == 6 or month == 9 or month == 11 ? 30 : 31);
+}
+
+/** Returns true iff `datetime`, of form `d'YYYY-MM-DD hh:mm:ss`, has a valid hour, minute, and second. */
+bool is_valid_time(const char *datetime)
+{
+    int hour, minute, second;
+    if (3 != sscanf(datetime, "d'%*d-%*d-%*d %d:%d:%d", &hour, &minute, &second)) return false;
+    return hour <= 23 and minute <= 59 and second <= 59;
+}
+
+}
+
 void DSVReader::operator()(Const<Date>&)
 {
     Catalog &C = Catalog::Get();
@@ -241,6 +263,8 @@ void DSVReader::operator()(Const<Date>&)
 
     buf.push_back('\'');
     buf.push_back(0);
+    if (not is_valid_date(buf.data()))
+        goto invalid;
 
     tup.set(col_idx, Interpreter::eval(ast::Constant(ast::Token(pos, C.pool(buf.data()), TK_DATE))));
     return;
@@ -277,6 +301,8 @@ void DSVReader::operator()(Const<DateTime>&)
 
     buf.push_back('\'');
     buf.push_back(0);
+    if (not is_valid_date(buf.data()) or not is_valid_time(buf.data()))
+        goto invalid;
     tup.set(col_idx, Interpreter::eval(ast::Constant(ast::Token(pos, C.pool(buf.data()), TK_DATE_TIME))));
     return;
 
-- 
2.43.0


From dff00df8f09e38b603d44d3ada00ba3209053ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:23 +0000
Subject: [PATCH 084/133] fix: accept the datetime d'1969-12-31 23:59:59'

---
 src/backend/Interpreter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backend/Interpreter.hpp b/src/backend/Interpreter.hpp
index ab1cddf..82ea38f 100644
--- a/src/backend/Interpreter.hpp
+++ b/src/backend/Interpreter.hpp
@@ -290,8 +290,9 @@ struct Interpreter : Backend, ConstOperatorVisitor
 #endif
 
                 /* Convert date time from std::tm to time_t (seconds since epoch). */
+                tm.tm_wday = -1; // set by timegm() on success; the result -1 is also one second before the epoch
                 const time_t time = timegm(&tm);
-                M_insist(time != -1, "datetime out of bounds");
+                M_insist(time != -1 or tm.tm_wday != -1, "datetime out of bounds");
 
 #if defined(__APPLE__)
                 return int64_t(time - cycles * SECONDS_PER_400_YEAR_CYCLE);
-- 
2.43.0


From 115ce360bb174955537600dea15ba829bcd59d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:23 +0000
Subject: [PATCH 085/133] fix: do not truncate the number of rows to import

---
 src/parse/Sema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/Sema.cpp b/src/parse/Sema.cpp
index c9e7d33..0670d2f 100644
--- a/src/parse/Sema.cpp
+++ b/src/parse/Sema.cpp
@@ -1978,7 +1978,7 @@ void Sema::operator()(DSVImportStmt &s)
     cfg.has_header = s.has_header;
     cfg.skip_header = s.skip_header;
     if (s.rows)
-        cfg.num_rows = atoi(*s.rows.text);
+        cfg.num_rows = strtoull(*s.rows.text, nullptr, 0);
 
     /* If character was provided by user, check that length is equal to 1. */
 #define SET_CHAR(NAME) \
-- 
2.43.0


From 638a9d93a61722a9c755241c3a75e9b6a2a18b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:05 +0000
Subject: [PATCH 086/133] fix: avoid integer overflow when training a recursive
 model index on keys of a large range

---
 include/mutable/storage/Index.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mutable/storage/Index.hpp b/include/mutable/storage/Index.hpp
index 7c6deb3..e60f5ff 100644
--- a/include/mutable/storage/Index.hpp
+++ b/include/mutable/storage/Index.hpp
@@ -185,7 +185,7 @@ struct RecursiveModelIndex : ArrayIndex<Key>
             if (n == 0) return { 0.0, 0.0 };
             if (n == 1) return { 0.0, static_cast<double>(offset) * compression_factor };
             double numerator = static_cast<double>(n); // (offset + n) - offset
-            double denominator = static_cast<double>((*(last - 1)).first - (*first).first);
+            double denominator = static_cast<double>((*(last - 1)).first) - static_cast<double>((*first).first);
             double slope = denominator != 0 ? numerator/denominator * compression_factor : 0.0;
             double intercept = offset * compression_factor - slope * (*first).first;
             return { slope, intercept };
-- 
2.43.0


From b4ca05a8be641ba83ef39e5c4b18d78e057c8d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:05 +0000
Subject: [PATCH 087/133] fix: do not start the search in a recursive model
 index behind its last entry

---
 include/mutable/storage/Index.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mutable/storage/Index.hpp b/include/mutable/storage/Index.hpp
index e60f5ff..c4c6d1e 100644
--- a/include/mutable/storage/Index.hpp
+++ b/include/mutable/storage/Index.hpp
@@ -269,7 +269,8 @@ struct RecursiveModelIndex : ArrayIndex<Key>
     private:
     std::size_t predict(const key_type key) const {
         auto segment_id = std::clamp<double>(models_[0](key), 0, models_.size() - 2);
-        auto pred = std::clamp<double>(models_[segment_id + 1](key), 0, base_type::num_entries());
+        const std::size_t last = base_type::num_entries() ? base_type::num_entries() - 1 : 0; // must point to an entry
+        auto pred = std::clamp<double>(models_[segment_id + 1](key), 0, last);
         return static_cast<std::size_t>(pred);
     }
     const_iterator lower_bound_exponential_search(const_iterator pred, const key_type value) const {
-- 
2.43.0


From 1160c5c1ce3625e873911caf61b08183a8d9c98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 088/133] fix: do not index with NaN if the keys of a recursive
 model index are extremely close or far apart

---
 include/mutable/storage/Index.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mutable/storage/Index.hpp b/include/mutable/storage/Index.hpp
index c4c6d1e..d54092b 100644
--- a/include/mutable/storage/Index.hpp
+++ b/include/mutable/storage/Index.hpp
@@ -174,7 +174,10 @@ struct RecursiveModelIndex : ArrayIndex<Key>
 
         LinearModel(double slope, double intercept) : slope(slope), intercept(intercept) { }
 
-        double operator()(const key_type x) const { return std::fma(slope, static_cast<double>(x), intercept); }
+        double operator()(const key_type x) const {
+            const double y = std::fma(slope, static_cast<double>(x), intercept);
+            return std::isnan(y) ? 0.0 : y; // parameters of the model may be infinite
+        }
 
         /** Builds a linear spline model between the \p first and \p last data point.  \p offset defines the first
          * y-value.  All y-values are scaled by \p compression_factor. */
-- 
2.43.0


From 06e3ed1a57e5f8f9c62df4f69ee26a7f7d9627ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:17 +0000
Subject: [PATCH 089/133] fix: dropping a table clears the references of other
 tables to its attributes

---
 include/mutable/catalog/Schema.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/mutable/catalog/Schema.hpp b/include/mutable/catalog/Schema.hpp
index 14eeb5a..ef28041 100644
--- a/include/mutable/catalog/Schema.hpp
+++ b/include/mutable/catalog/Schema.hpp
@@ -929,6 +929,14 @@ struct M_EXPORT Database
         if (it == tables_.end())
             throw std::invalid_argument("Table of that name does not exist.");
         drop_indexes(name);
+        /* Attributes of other tables must no longer refer to attributes of the dropped table. */
+        for (auto &entry : tables_) {
+            auto &table = *entry.second;
+            for (auto attr = table.cbegin_all(), end = table.cend_all(); attr != end; ++attr) {
+                if (attr->reference and attr->reference->table.name() == name)
+                    table.at(attr->id).reference = nullptr;
+            }
+        }
         tables_.erase(it);
     };
 
-- 
2.43.0


From a968c49b4ce5e6b47ce692a1abb7c201376a7ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:22 +0000
Subject: [PATCH 090/133] fix: execute_statement creates tables with CHECK
 constraints instead of aborting

---
 src/mutable.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mutable.cpp b/src/mutable.cpp
index ff61525..69157d5 100644
--- a/src/mutable.cpp
+++ b/src/mutable.cpp
@@ -254,6 +254,7 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
                         auto &ref_attr = ref_table.at(ref.attr_name.text.assert_not_none());
                         T.at(attribute_name).reference = &ref_attr;
                     },
+                    [](const CheckConditionConstraint&) { /* conditions are not enforced */ },
                     [](auto&&) { M_unreachable("constraint not implemented"); },
                 }, *c, tag<ConstASTConstraintVisitor>{});
             }
-- 
2.43.0


From 87c3d52599529ba7a1197102ac0e63dc326672d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:46 +0000
Subject: [PATCH 091/133] fix: execute_statement inserts into the visible
 attributes of multi-versioning tables

---
 src/mutable.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mutable.cpp b/src/mutable.cpp
index 69157d5..92a4c71 100644
--- a/src/mutable.cpp
+++ b/src/mutable.cpp
@@ -199,10 +199,11 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
             StackMachine get_tuple(Schema{});
             tup.clear(); // the tuple is reused for all rows
             for (std::size_t i = 0; i != t.size(); ++i) {
+                auto attr_id = T.convert_id(i); // hidden attributes change the actual id of the attribute
                 auto &v = t[i];
                 switch (v.first) {
                     case ast::InsertStmt::I_Null:
-                        get_tuple.emit_St_Tup_Null(0, i);
+                        get_tuple.emit_St_Tup_Null(0, attr_id);
                         break;
 
                     case ast::InsertStmt::I_Default:
@@ -211,8 +212,8 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
 
                     case ast::InsertStmt::I_Expr:
                         get_tuple.emit(*v.second);
-                        get_tuple.emit_Cast(S[i].type, v.second->type());
-                        get_tuple.emit_St_Tup(0, i, S[i].type);
+                        get_tuple.emit_Cast(S[attr_id].type, v.second->type());
+                        get_tuple.emit_St_Tup(0, attr_id, S[attr_id].type);
                         break;
                 }
             }
-- 
2.43.0


From 7d2f212255fac83f237de3a8a273adbfbd20cc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:23 +0000
Subject: [PATCH 092/133] fix: rows written outside of a transaction are
 visible to transactions

---
 src/io/DSVReader.cpp |  5 +++--
 src/mutable.cpp      | 15 +++++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/io/DSVReader.cpp b/src/io/DSVReader.cpp
index a08b8e9..b9848ed 100644
--- a/src/io/DSVReader.cpp
+++ b/src/io/DSVReader.cpp
@@ -135,8 +135,9 @@ void DSVReader::operator()(std::istream &in, const char *name)
                                                                               S, store.num_rows() - 1));
             }
             /*----- set timestamps if available. -----*/
-            if (this->transaction and ts_begin != table.end_hidden()) {
-                tup.set(ts_begin->id, Value(transaction->start_time()));
+            if (ts_begin != table.end_hidden()) {
+                /* Outside of a transaction, rows are valid since the beginning. */
+                tup.set(ts_begin->id, Value(transaction ? int64_t(transaction->start_time()) : int64_t(0)));
                 /* Set $ts_end to -1. It is a special value representing infinity. */
                 M_insist(ts_end != table.end_hidden());
                 tup.set(ts_end->id, Value(-1));
diff --git a/src/mutable.cpp b/src/mutable.cpp
index 92a4c71..fb0f84f 100644
--- a/src/mutable.cpp
+++ b/src/mutable.cpp
@@ -194,6 +194,12 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
         auto &S = W.schema();
         Tuple tup(S);
 
+        /* Find timestamp attributes. */
+        auto ts_begin = std::find_if(T.cbegin_hidden(), T.end_hidden(),
+                                     [&](const Attribute &attr) { return attr.name == C.pool("$ts_begin"); });
+        auto ts_end = std::find_if(T.cbegin_hidden(), T.end_hidden(),
+                                   [&](const Attribute &attr) { return attr.name == C.pool("$ts_end"); });
+
         /* Write all tuples to the store. */
         for (auto &t : I->tuples) {
             StackMachine get_tuple(Schema{});
@@ -219,6 +225,15 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
             }
             Tuple *args[] = { &tup };
             get_tuple(args);
+
+            /*----- Set timestamps if available.  Outside of a transaction, rows are valid since the beginning. -----*/
+            if (ts_begin != T.end_hidden()) {
+                tup.set(ts_begin->id, Value(int64_t(0)));
+                /* Set $ts_end to -1. It is a special value representing infinity. */
+                M_insist(ts_end != T.end_hidden());
+                tup.set(ts_end->id, Value(int64_t(-1)));
+            }
+
             W.append(tup);
         }
         /* Invalidate all indexes on the table. */
-- 
2.43.0


From d76cd7c28ed8add4f2836730616474973d9a635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:56 +0000
Subject: [PATCH 093/133] fix: loading files through the library invalidates
 the indexes of the table

---
 src/mutable.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mutable.cpp b/src/mutable.cpp
index fb0f84f..ad8b14f 100644
--- a/src/mutable.cpp
+++ b/src/mutable.cpp
@@ -306,6 +306,8 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
                 diag.err() << std::endl;
             } else {
                 M_TIME_EXPR(R(file, *S->path.text), "Read DSV file", timer);
+                /* Invalidate all indexes on the table. */
+                DB.invalidate_indexes(T.name());
             }
         } catch (m::invalid_argument e) {
             diag.err() << "Error reading DSV file: " << e.what() << "\n";
@@ -421,6 +423,14 @@ void m::load_from_CSV(Diagnostic &diag, Table &table, const std::filesystem::pat
         diag.err() << std::endl;
     } else {
         R(file, path.c_str()); // read the file
+
+        /* Invalidate all indexes on the table. */
+        auto &C = Catalog::Get();
+        if (C.has_database_in_use()) {
+            auto &DB = C.get_database_in_use();
+            if (DB.has_table(table.name()) and &DB.get_table(table.name()) == &table)
+                DB.invalidate_indexes(table.name());
+        }
     }
 
     if (diag.num_errors() != 0)
-- 
2.43.0


From 474e398ddb1f6f001f647778c0b2feb5fc8da2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:02 +0000
Subject: [PATCH 094/133] fix: distinguish likelihood, upper bound, and lower
 bound of ranges in continuous SPN leaves

The missing breaks made all three evaluate to the lower bound.
---
 src/util/Spn.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/Spn.cpp b/src/util/Spn.cpp
index eb7789f..3b10e2a 100644
--- a/src/util/Spn.cpp
+++ b/src/util/Spn.cpp
@@ -432,10 +432,13 @@ std::pair<float, float> Spn::ContinuousLeaf::evaluate(const Filter &filter, unsi
         switch (eval_type) {
             case APPROXIMATE:
                 probability = prev_bin.cumulative_probability + (bin_probability * percentile);
+                break;
             case UPPER_BOUND:
                 probability = bin.cumulative_probability;
+                break;
             case LOWER_BOUND:
                 probability = prev_bin.cumulative_probability;
+                break;
         }
         return { probability, probability };
     }
@@ -464,10 +467,13 @@ std::pair<float, float> Spn::ContinuousLeaf::evaluate(const Filter &filter, unsi
         switch (eval_type) {
             case APPROXIMATE:
                 probability = last_prob - bin.cumulative_probability + (bin_probability * percentile);
+                break;
             case UPPER_BOUND:
                 probability = last_prob - prev_bin.cumulative_probability;
+                break;
             case LOWER_BOUND:
                 probability = last_prob - bin.cumulative_probability;
+                break;
         }
         return { probability, probability };
     }
-- 
2.43.0


From 54b4ac664d083420f5fdaed197f6ae1dcfdea1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:02 +0000
Subject: [PATCH 095/133] fix: do not modify and read an iterator in
 unspecified order when evaluating continuous SPN leaves

---
 src/util/Spn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/Spn.cpp b/src/util/Spn.cpp
index 3b10e2a..1033316 100644
--- a/src/util/Spn.cpp
+++ b/src/util/Spn.cpp
@@ -403,7 +403,7 @@ std::pair<float, float> Spn::ContinuousLeaf::evaluate(const Filter &filter, unsi
             return { probability, probability };
         }
         auto std_lower_bound = std::lower_bound(bins.begin(), bins.end(), value);
-        probability = std_lower_bound->cumulative_probability - (--std_lower_bound)->cumulative_probability;
+        probability = std_lower_bound->cumulative_probability - std::prev(std_lower_bound)->cumulative_probability;
         return { probability, probability };
     }
 
-- 
2.43.0


From 73a53acd9636ea1e42918c524ad96befe18c3c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:02 +0000
Subject: [PATCH 096/133] fix: count the rows at the lower bound only once in
 the expectation of a continuous SPN leaf

---
 src/util/Spn.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/Spn.cpp b/src/util/Spn.cpp
index 1033316..fec9f0f 100644
--- a/src/util/Spn.cpp
+++ b/src/util/Spn.cpp
@@ -381,7 +381,8 @@ std::pair<float, float> Spn::ContinuousLeaf::evaluate(const Filter &filter, unsi
 
     if (spn_operator == SpnOperator::EXPECTATION) {
         float expectation = lower_bound * lower_bound_probability;
-        expectation += bins[0].cumulative_probability * ((bins[0].upper_bound + lower_bound) / 2.f);
+        expectation += (bins[0].cumulative_probability - lower_bound_probability) *
+            ((bins[0].upper_bound + lower_bound) / 2.f);
         float prev_probability = bins[0].cumulative_probability;
         float prev_upper_bound = bins[0].upper_bound;
         for (std::size_t bin_id = 1; bin_id < bins.size(); bin_id++) {
-- 
2.43.0


From fae1bc8114a8f42ca74aac21235ce86800af8776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:09 +0000
Subject: [PATCH 097/133] fix: compute bounds of ranges in the first bin and at
 the end of a continuous SPN leaf

The upper bound of a range that starts or ends in the first bin was the approximation, a range ending before the
maximum included the maximum in its lower bound, and a range starting at the maximum was considered empty.
---
 src/util/Spn.cpp | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/util/Spn.cpp b/src/util/Spn.cpp
index fec9f0f..bc04f2a 100644
--- a/src/util/Spn.cpp
+++ b/src/util/Spn.cpp
@@ -415,14 +415,25 @@ std::pair<float, float> Spn::ContinuousLeaf::evaluate(const Filter &filter, unsi
             }
             return { 0.f, 0.f };
         }
-        if ((std::prev(bins.end()))->upper_bound <= value) {
+        const float max = std::prev(bins.end())->upper_bound;
+        if (max < value or (max == value and spn_operator == LESS_EQUAL)) {
             probability = std::prev(bins.end())->cumulative_probability;
             return { probability, probability };
         }
         if (value <= bins[0].upper_bound) {
             float prob = bins[0].cumulative_probability - lower_bound_probability;
-            probability = lower_bound_probability +
-                (prob * ((value - lower_bound) / (bins[0].upper_bound - lower_bound)));
+            switch (eval_type) {
+                case APPROXIMATE:
+                    probability = lower_bound_probability +
+                        (prob * ((value - lower_bound) / (bins[0].upper_bound - lower_bound)));
+                    break;
+                case UPPER_BOUND:
+                    probability = bins[0].cumulative_probability;
+                    break;
+                case LOWER_BOUND:
+                    probability = lower_bound_probability;
+                    break;
+            }
             return { probability, probability };
         }
         auto std_lower_bound = std::lower_bound(bins.begin(), bins.end(), value);
@@ -453,11 +464,22 @@ std::pair<float, float> Spn::ContinuousLeaf::evaluate(const Filter &filter, unsi
             }
             return { last_prob, last_prob };
         }
-        if ((std::prev(bins.end()))->upper_bound <= value) { return { 0.f, 0.f }; }
+        const float max = std::prev(bins.end())->upper_bound;
+        if (max < value or (max == value and spn_operator == GREATER)) { return { 0.f, 0.f }; }
         if (value <= bins[0].upper_bound) {
             float prob = bins[0].cumulative_probability - lower_bound_probability;
             float split_bin_prob = (prob * (1.f - ((value - lower_bound) / (bins[0].upper_bound - lower_bound))));
-            probability = last_prob - bins[0].cumulative_probability + split_bin_prob;
+            switch (eval_type) {
+                case APPROXIMATE:
+                    probability = last_prob - bins[0].cumulative_probability + split_bin_prob;
+                    break;
+                case UPPER_BOUND:
+                    probability = last_prob - lower_bound_probability;
+                    break;
+                case LOWER_BOUND:
+                    probability = last_prob - bins[0].cumulative_probability;
+                    break;
+            }
             return { probability, probability };
         }
         auto std_lower_bound = std::lower_bound(bins.begin(), bins.end(), value);
-- 
2.43.0


From 5248035cbe23b49f973497d192dd8426ad2a3bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:09 +0000
Subject: [PATCH 098/133] fix: deleting the lower bound from a continuous SPN
 leaf decreases its frequency

---
 src/util/Spn.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/Spn.cpp b/src/util/Spn.cpp
index bc04f2a..929ebeb 100644
--- a/src/util/Spn.cpp
+++ b/src/util/Spn.cpp
@@ -552,10 +552,11 @@ void Spn::ContinuousLeaf::update(VectorXf &row, SmallBitset variables, Spn::Upda
     else {
         if (value < lower_bound or value > updated_bins[updated_bins.size() - 1].upper_bound) { return; }
         if (value == lower_bound) {
-            updated_lower_bound_prob += 1;
+            if (updated_lower_bound_prob < .5f) { return; }
+            updated_lower_bound_prob -= 1;
         } else {
             auto std_lower_bound = std::lower_bound(updated_bins.begin(), updated_bins.end(), value);
-            if (std_lower_bound->cumulative_probability == 0) { return; }
+            if (std_lower_bound->cumulative_probability < .5f) { return; }
             std_lower_bound->cumulative_probability -= 1;
         }
         num_rows--;
-- 
2.43.0


From f009f3d4c15da939642a9e7ba2364479607000de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:09 +0000
Subject: [PATCH 099/133] fix: set the lower bound when inserting the first
 value into a continuous SPN leaf

---
 src/util/Spn.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/Spn.cpp b/src/util/Spn.cpp
index 929ebeb..d876da8 100644
--- a/src/util/Spn.cpp
+++ b/src/util/Spn.cpp
@@ -510,7 +510,9 @@ void Spn::ContinuousLeaf::update(VectorXf &row, SmallBitset variables, Spn::Upda
 
     if (bins.empty()) {
         if (update_type == INSERT) {
-            bins.emplace_back(value, 1.f/(num_rows + 1));
+            lower_bound = value;
+            lower_bound_probability = 1.f/(num_rows + 1);
+            bins.emplace_back(value, lower_bound_probability);
             null_probability = (null_probability * num_rows) / (num_rows + 1);
             num_rows++;
         }
-- 
2.43.0


From 77372a8f5dd133366d32944e6f511dc2290d1514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:09 +0000
Subject: [PATCH 100/133] fix: updating SPN leaves adapts the probability of
 NULL and supports deleting the last and unknown values

---
 src/util/Spn.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/util/Spn.cpp b/src/util/Spn.cpp
index d876da8..251fe43 100644
--- a/src/util/Spn.cpp
+++ b/src/util/Spn.cpp
@@ -311,6 +311,7 @@ void Spn::DiscreteLeaf::update(VectorXf &row, SmallBitset variables, Spn::Update
 
     /* copy bins with the actual number of values in a bin */
     std::vector<Bin> updated_bins;
+    const float num_nulls = null_probability * num_rows;
     updated_bins.reserve(bins.size());
     updated_bins.emplace_back(bins[0].value, bins[0].cumulative_probability * num_rows);
     for (std::size_t i = 1; i < bins.size(); i++) {
@@ -331,10 +332,17 @@ void Spn::DiscreteLeaf::update(VectorXf &row, SmallBitset variables, Spn::Update
     /* delete the update value from the correct bin  */
     else {
         auto lower_bound = std::lower_bound(updated_bins.begin(), updated_bins.end(), value);
-        if (lower_bound->value != value) { return; }
+        if (lower_bound == updated_bins.end() or lower_bound->value != value) { return; }
         lower_bound->cumulative_probability -= 1;
+        if (lower_bound->cumulative_probability < .5f) { updated_bins.erase(lower_bound); } // no more such values
         num_rows--;
     }
+    null_probability = num_rows ? num_nulls / float(num_rows) : 0.f;
+
+    if (updated_bins.empty()) {
+        bins.clear();
+        return;
+    }
 
     /* calculate the cumulative probability */
     updated_bins[0].cumulative_probability /= float(num_rows);
@@ -521,6 +529,7 @@ void Spn::ContinuousLeaf::update(VectorXf &row, SmallBitset variables, Spn::Upda
 
     /* copy bins with the actual number of values in a bin */
     std::vector<Bin> updated_bins;
+    const float num_nulls = null_probability * num_rows;
     float updated_lower_bound_prob = lower_bound_probability * num_rows;
     updated_bins.reserve(bins.size());
     updated_bins.emplace_back(
@@ -563,6 +572,12 @@ void Spn::ContinuousLeaf::update(VectorXf &row, SmallBitset variables, Spn::Upda
         }
         num_rows--;
     }
+    null_probability = num_rows ? num_nulls / float(num_rows) : 0.f;
+
+    if (num_rows == 0) {
+        bins.clear();
+        return;
+    }
 
     /* calculate the cumulative probability */
     updated_lower_bound_prob /= float(num_rows);
-- 
2.43.0


From b4c488d86996acb450477aea8465cdc6816f7451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:09 +0000
Subject: [PATCH 101/133] fix: updating SPNs counts each inserted row once and
 each deleted row as such

Sum nodes counted deleted rows as inserted ones and nested sum nodes counted each row twice.
---
 src/util/Spn.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/util/Spn.cpp b/src/util/Spn.cpp
index 251fe43..715e17c 100644
--- a/src/util/Spn.cpp
+++ b/src/util/Spn.cpp
@@ -124,15 +124,13 @@ void Spn::Sum::update(VectorXf &row, SmallBitset variables, Spn::UpdateType upda
         }
     }
 
-    /* adjust weights of the sum nodes */
-    children[nearest_centroid]->child->num_rows++;
-    num_rows++;
-
-    for (std::size_t i = 0; i < num_clusters; i++) {
-        children[i]->weight = children[i]->child->num_rows / float(num_rows);
-    }
-
     children[nearest_centroid]->child->update(row, variables, update_type);
+
+    /* adjust weights of the sum nodes */
+    num_rows = 0;
+    for (auto &child : children) { num_rows += child->child->num_rows; }
+    if (num_rows == 0) { return; }
+    for (auto &child : children) { child->weight = child->child->num_rows / float(num_rows); }
 }
 
 std::size_t Spn::Sum::estimate_number_distinct_values(unsigned id) const
@@ -194,6 +192,9 @@ void Spn::Product::update(VectorXf &row, SmallBitset variables, UpdateType updat
         }
         child->child->update(proj_row, child->variables, update_type);
     }
+
+    if (update_type == INSERT) { num_rows++; }
+    else if (num_rows) { num_rows--; }
 }
 
 std::size_t Spn::Product::estimate_number_distinct_values(unsigned id) const
-- 
2.43.0


From a939b0eae086d97f8335472eb8a0c10cc8986c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:09 +0000
Subject: [PATCH 102/133] fix: the last bin of a continuous SPN leaf includes
 the maximum

---
 src/util/Spn.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/Spn.cpp b/src/util/Spn.cpp
index 715e17c..0d672eb 100644
--- a/src/util/Spn.cpp
+++ b/src/util/Spn.cpp
@@ -849,6 +849,7 @@ std::unique_ptr<Spn::Node> Spn::learn_node(LearningData &ld)
             for(std::size_t bin_id = 0; bin_id < num_bins; bin_id++) {
                 bins.emplace_back(min + (float(bin_id + 1) * bin_width), 0.f);
             }
+            bins.back().upper_bound = max; // compensate rounding errors
 
             /* fill the values into the existing bins */
             for (unsigned i = 0; i < num_rows; i++) {
-- 
2.43.0


From b26731d8c848b8749d343dd033d4976f248d54b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:09 +0000
Subject: [PATCH 103/133] fix: the likelihood of no filter is 1 in SPNs

---
 src/util/Spn.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/Spn.cpp b/src/util/Spn.cpp
index 0d672eb..677688a 100644
--- a/src/util/Spn.cpp
+++ b/src/util/Spn.cpp
@@ -946,16 +946,19 @@ void Spn::update(VectorXf &row, UpdateType update_type)
 
 float Spn::likelihood(const Filter &filter) const
 {
+    if (filter.empty()) { return 1.f; }
     return root_->evaluate(filter, filter.begin()->first, APPROXIMATE).second;
 }
 
 float Spn::upper_bound(const Filter &filter) const
 {
+    if (filter.empty()) { return 1.f; }
     return root_->evaluate(filter, filter.begin()->first, UPPER_BOUND).second;
 }
 
 float Spn::lower_bound(const Filter &filter) const
 {
+    if (filter.empty()) { return 1.f; }
     return root_->evaluate(filter, filter.begin()->first, LOWER_BOUND).second;
 }
 
-- 
2.43.0


From 7e27c3deb6c5194e158ac45b8a7218c684a950a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:09 +0000
Subject: [PATCH 104/133] fix: updating SPNs of more than 31 attributes

---
 src/util/Spn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/Spn.cpp b/src/util/Spn.cpp
index 677688a..5e306c7 100644
--- a/src/util/Spn.cpp
+++ b/src/util/Spn.cpp
@@ -940,7 +940,7 @@ Spn Spn::learn_spn(Eigen::MatrixXf &data, Eigen::MatrixXi &null_matrix, std::vec
 
 void Spn::update(VectorXf &row, UpdateType update_type)
 {
-    SmallBitset variables((1 << row.size()) - 1);
+    SmallBitset variables = SmallBitset::All(row.size());
     root_->update(row, variables, update_type);
 }
 
-- 
2.43.0


From fe11acd3c0884cd539cd501fb51747523e7271f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 105/133] fix: represent strings in SPNs by a hash of their
 characters, not of their address

---
 src/catalog/SpnWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/SpnWrapper.cpp b/src/catalog/SpnWrapper.cpp
index 43e727e..387e40f 100644
--- a/src/catalog/SpnWrapper.cpp
+++ b/src/catalog/SpnWrapper.cpp
@@ -115,7 +115,7 @@ SpnWrapper SpnWrapper::learn_spn_table(const ThreadSafePooledString &name_of_dat
                 } else {
                     auto v_pointer = T.get(current_column).as_p();
                     const char* value = static_cast<const char*>(v_pointer);
-                    data(current_row, current_column - primary_key_count) = float(std::hash<const char*>{}(value));
+                    data(current_row, current_column - primary_key_count) = float(StrHash{}(value));
                     //data(current_row, current_column-primary_key_count) = 0;
                 }
                 current_row++;
-- 
2.43.0


From 0a35cc84a0f2c6454f3dd233f2c82462b9edd768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 106/133] fix: learn SPNs of boolean, date, and decimal
 attributes instead of leaving them uninitialized

---
 src/catalog/SpnWrapper.cpp | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/catalog/SpnWrapper.cpp b/src/catalog/SpnWrapper.cpp
index 387e40f..a0beca6 100644
--- a/src/catalog/SpnWrapper.cpp
+++ b/src/catalog/SpnWrapper.cpp
@@ -88,7 +88,7 @@ SpnWrapper SpnWrapper::learn_spn_table(const ThreadSafePooledString &name_of_dat
             execute_query(diag, *select_stmt, std::move(callback_data));
         }
 
-        if (type->is_integral()) {
+        if (type->is_integral() or type->is_date() or type->is_date_time()) {
             if (leaf_types[current_column - primary_key_count] == Spn::AUTO) {
                 leaf_types[current_column - primary_key_count] = Spn::DISCRETE;
             }
@@ -104,6 +104,40 @@ SpnWrapper SpnWrapper::learn_spn_table(const ThreadSafePooledString &name_of_dat
             execute_query(diag, *select_stmt, std::move(callback_data));
         }
 
+        if (type->is_boolean()) {
+            if (leaf_types[current_column - primary_key_count] == Spn::AUTO) {
+                leaf_types[current_column - primary_key_count] = Spn::DISCRETE;
+            }
+            auto callback_data = std::make_unique<CallbackOperator>([&](const Schema &S, const Tuple &T) {
+                if (T.is_null(current_column)) {
+                    null_matrix(current_row, current_column - primary_key_count) = 1;
+                    data(current_row, current_column - primary_key_count) = 0;
+                } else {
+                    data(current_row, current_column - primary_key_count) = float(T.get(current_column).as_b());
+                }
+                current_row++;
+            });
+            execute_query(diag, *select_stmt, std::move(callback_data));
+        }
+
+        if (type->is_decimal()) {
+            if (leaf_types[current_column - primary_key_count] == Spn::AUTO) {
+                leaf_types[current_column - primary_key_count] = Spn::CONTINUOUS;
+            }
+            const double factor = powi(int64_t(10), as<const Numeric>(*type).scale);
+            auto callback_data = std::make_unique<CallbackOperator>([&](const Schema &S, const Tuple &T) {
+                if (T.is_null(current_column)) {
+                    null_matrix(current_row, current_column - primary_key_count) = 1;
+                    data(current_row, current_column - primary_key_count) = 0;
+                } else {
+                    data(current_row, current_column - primary_key_count) =
+                        float(T.get(current_column).as_i() / factor);
+                }
+                current_row++;
+            });
+            execute_query(diag, *select_stmt, std::move(callback_data));
+        }
+
         if (type->is_character_sequence()) {
             if (leaf_types[current_column - primary_key_count] == Spn::AUTO) {
                 leaf_types[current_column - primary_key_count] = Spn::CONTINUOUS;
-- 
2.43.0


From 8ad91cfc5892c619ae437130b72bd2e5e583f90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:40 +0000
Subject: [PATCH 107/133] fix: do not create children for empty clusters when
 learning an SPN

---
 src/util/Spn.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/Spn.cpp b/src/util/Spn.cpp
index 5e306c7..ee1dfc9 100644
--- a/src/util/Spn.cpp
+++ b/src/util/Spn.cpp
@@ -754,6 +754,7 @@ std::unique_ptr<Spn::Sum> Spn::create_sum(Spn::LearningData &ld)
         ) {
             std::vector<std::unique_ptr<Sum::ChildWithWeight>> children;
             for (std::size_t cluster_id = 0; cluster_id < k - 1; cluster_id++) {
+                if (prev_cluster_row_ids[cluster_id].empty()) { continue; } // k-means may form empty clusters
                 const MatrixXf &data = ld.data(prev_cluster_row_ids[cluster_id], all);
                 const MatrixXf &normalized = ld.normalized(prev_cluster_row_ids[cluster_id], all);
                 const MatrixXi &null_matrix = ld.null_matrix(prev_cluster_row_ids[cluster_id], all);
-- 
2.43.0


From dd7a437b2fa9e4fcd390b6baafb135d5f694d07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:34 +0000
Subject: [PATCH 108/133] fix: do not count the first data source twice when
 estimating a join without injected cardinality

---
 src/catalog/CardinalityEstimator.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/catalog/CardinalityEstimator.cpp b/src/catalog/CardinalityEstimator.cpp
index 190b395..3306164 100644
--- a/src/catalog/CardinalityEstimator.cpp
+++ b/src/catalog/CardinalityEstimator.cpp
@@ -360,9 +360,8 @@ InjectionCardinalityEstimator::operator()(estimate_join_all_tag, PlanTable &&PT,
         /* Fallback to cartesian product. */
         if (not Options::Get().quiet)
             std::cerr << "warning: failed to estimate the join of all data sources in " << to_join << '\n';
-        auto ds_it = to_join.begin();
-        std::size_t size = as<const InjectionCardinalityDataModel>(*PT[ds_it.as_set()].model).size_;
-        for (; ds_it != to_join.end(); ++ds_it)
+        std::size_t size = 1;
+        for (auto ds_it = to_join.begin(); ds_it != to_join.end(); ++ds_it)
             size *= as<const InjectionCardinalityDataModel>(*PT[ds_it.as_set()].model).size_;
         return std::make_unique<InjectionCardinalityDataModel>(to_join, size);
     }
-- 
2.43.0


From 651c31a7a4d900765e83a407de75f6f7abc01c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:34 +0000
Subject: [PATCH 109/133] fix: saturate estimated cardinalities of joins
 instead of wrapping around

The product of large cardinalities wrapped around, e.g. to 0, and injected cardinalities were clamped to it.
---
 src/catalog/CardinalityEstimator.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/catalog/CardinalityEstimator.cpp b/src/catalog/CardinalityEstimator.cpp
index 3306164..ebd7246 100644
--- a/src/catalog/CardinalityEstimator.cpp
+++ b/src/catalog/CardinalityEstimator.cpp
@@ -8,6 +8,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <filesystem>
+#include <limits>
 #include <mutable/catalog/Catalog.hpp>
 #include <mutable/IR/CNF.hpp>
 #include <mutable/IR/Operator.hpp>
@@ -30,6 +31,13 @@ std::filesystem::path injected_cardinalities_file;
 
 }
 
+/** Multiplies two cardinalities, saturating at the largest representable cardinality. */
+std::size_t multiply_cardinalities(std::size_t left, std::size_t right)
+{
+    std::size_t result;
+    return __builtin_mul_overflow(left, right, &result) ? std::numeric_limits<std::size_t>::max() : result;
+}
+
 }
 
 /*======================================================================================================================
@@ -113,7 +121,7 @@ CartesianProductEstimator::estimate_join(const QueryGraph&, const DataModel &_le
     auto left = as<const CartesianProductDataModel>(_left);
     auto right = as<const CartesianProductDataModel>(_right);
     auto model = std::make_unique<CartesianProductDataModel>();
-    model->size = left.size * right.size; // this model cannot estimate the effects of a join condition
+    model->size = multiply_cardinalities(left.size, right.size); // this model cannot estimate the effects of a join condition
     return model;
 }
 
@@ -126,7 +134,8 @@ CartesianProductEstimator::operator()(estimate_join_all_tag, PlanTable &&PT, con
     auto model = std::make_unique<CartesianProductDataModel>();
     model->size = 1UL;
     for (auto it = to_join.begin(); it != to_join.end(); ++it)
-        model->size *= as<const CartesianProductDataModel>(*PT[it.as_set()].model).size;
+        model->size = multiply_cardinalities(model->size,
+                                             as<const CartesianProductDataModel>(*PT[it.as_set()].model).size);
     return model;
 }
 
@@ -326,7 +335,7 @@ InjectionCardinalityEstimator::estimate_join(const QueryGraph &G, const DataMode
     if (auto it = cardinality_table_.find(id); it != cardinality_table_.end()) {
         /* Clamp injected cardinality to at most the cardinality of the cartesian product of the join's children
          * since it cannot produce more tuples than that. */
-        const std::size_t max_cardinality = left.size_ * right.size_;
+        const std::size_t max_cardinality = multiply_cardinalities(left.size_, right.size_);
         return std::make_unique<InjectionCardinalityDataModel>(subproblem, std::min(it->second, max_cardinality));
     } else {
         /* Fallback to CartesianProductEstimator. */
@@ -354,7 +363,9 @@ InjectionCardinalityEstimator::operator()(estimate_join_all_tag, PlanTable &&PT,
          * since it cannot produce more tuples than that. */
         std::size_t max_cardinality = 1;
         for (auto it = to_join.begin(); it != to_join.end(); ++it)
-            max_cardinality *= as<const InjectionCardinalityDataModel>(*PT[it.as_set()].model).size_;
+            max_cardinality = multiply_cardinalities(
+                max_cardinality, as<const InjectionCardinalityDataModel>(*PT[it.as_set()].model).size_
+            );
         return std::make_unique<InjectionCardinalityDataModel>(to_join, std::min(it->second, max_cardinality));
     } else {
         /* Fallback to cartesian product. */
@@ -362,7 +373,9 @@ InjectionCardinalityEstimator::operator()(estimate_join_all_tag, PlanTable &&PT,
             std::cerr << "warning: failed to estimate the join of all data sources in " << to_join << '\n';
         std::size_t size = 1;
         for (auto ds_it = to_join.begin(); ds_it != to_join.end(); ++ds_it)
-            size *= as<const InjectionCardinalityDataModel>(*PT[ds_it.as_set()].model).size_;
+            size = multiply_cardinalities(
+                size, as<const InjectionCardinalityDataModel>(*PT[ds_it.as_set()].model).size_
+            );
         return std::make_unique<InjectionCardinalityDataModel>(to_join, size);
     }
 }
-- 
2.43.0


From 68cf4f255306913c8c8c30fb9ab44026208a8fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:34 +0000
Subject: [PATCH 110/133] fix: warn about and ignore malformed and duplicate
 injected cardinalities

Relations or sizes of wrong type and files that are no JSON object ended in an uncaught exception, negative sizes
wrapped around, and duplicates aborted.
---
 src/catalog/CardinalityEstimator.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/catalog/CardinalityEstimator.cpp b/src/catalog/CardinalityEstimator.cpp
index ebd7246..16722ee 100644
--- a/src/catalog/CardinalityEstimator.cpp
+++ b/src/catalog/CardinalityEstimator.cpp
@@ -213,7 +213,7 @@ void InjectionCardinalityEstimator::read_json(Diagnostic &diag, std::istream &in
     json *database_entry;
     try {
         database_entry = &cardinalities.at(*name_of_database); //throws if key does not exist
-    } catch (json::out_of_range &out_of_range) {
+    } catch (json::exception&) {
         diag.w(pos) << "No entry for the db " << name_of_database << " in the file.\n"
                     << "A dummy estimator will be used to do estimations.\n";
         return;
@@ -227,6 +227,13 @@ void InjectionCardinalityEstimator::read_json(Diagnostic &diag, std::istream &in
             relations_array = &subproblem_entry.at("relations");
             size = &subproblem_entry.at("size");
         } catch (json::exception &exception) {
+            relations_array = size = nullptr;
+        }
+        const bool is_valid = relations_array and relations_array->is_array() and
+            std::all_of(relations_array->begin(), relations_array->end(), [](auto &r) { return r.is_string(); }) and
+            (size->is_number_unsigned() or (size->is_number_float() and size->get<double>() >= 0. and
+                                            size->get<double>() < 0x1p64));
+        if (not is_valid) {
             diag.w(pos) << "The entry " << subproblem_entry << " for the db \"" << name_of_database << "\""
                         << " does not have the required form of {\"relations\": ..., \"size\": ... } "
                         << "and will thus be ignored.\n";
@@ -247,7 +254,9 @@ void InjectionCardinalityEstimator::read_json(Diagnostic &diag, std::istream &in
         buf_.emplace_back(0);
         ThreadSafePooledString str = C.pool(buf_view());
         auto res = cardinality_table_.emplace(std::move(str), *size);
-        M_insist(res.second, "insertion must not fail as we do not allow for duplicates in the input file");
+        if (not res.second)
+            diag.w(pos) << "The entry " << subproblem_entry << " for the db \"" << name_of_database << "\""
+                        << " is a duplicate and will thus be ignored.\n";
     }
 }
 
-- 
2.43.0


From 720761069559dd27b077ba403219e0d54b9bf751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:12 +0000
Subject: [PATCH 111/133] fix: estimate filters with SPNs according to the
 predicates and ignore those SPNs cannot represent

Negations were ignored, comparisons with the constant to the left were mirrored, and floating-point constants,
disjunctions, and predicates with other operands or operators than comparisons of a non-key attribute to a number
aborted or ended in an uncaught exception.
---
 src/catalog/CardinalityEstimator.cpp | 134 ++++++++++++---------------
 1 file changed, 61 insertions(+), 73 deletions(-)

diff --git a/src/catalog/CardinalityEstimator.cpp b/src/catalog/CardinalityEstimator.cpp
index 16722ee..8ddfc4e 100644
--- a/src/catalog/CardinalityEstimator.cpp
+++ b/src/catalog/CardinalityEstimator.cpp
@@ -452,70 +452,66 @@ ThreadSafePooledString InjectionCardinalityEstimator::make_identifier(const Quer
 
 namespace {
 
-/** Visitor to translate a CNF to an Spn filter. Only consider sargable expressions. */
-struct FilterTranslator : ast::ConstASTExprVisitor {
-    Catalog &C = Catalog::Get();
-    ThreadSafePooledString attribute;
-    float value;
-    Spn::SpnOperator op;
-
-    FilterTranslator() : attribute(C.pool("")), value(0), op(Spn::EQUAL) { }
-
-    using ConstASTExprVisitor::operator();
-
-    void operator()(const ast::Designator &designator) { attribute = designator.attr_name.text.assert_not_none(); }
-
-    void operator()(const ast::Constant &constant) {
-        auto val = Interpreter::eval(constant);
-
-        visit(overloaded {
-                [&val, this](const Numeric &numeric) {
-                    switch (numeric.kind) {
-                        case Numeric::N_Int:
-                            value = float(val.as_i());
-                            break;
-                        case Numeric::N_Float:
-                            value = val.as_f();
-                            break;
-                        case Numeric::N_Decimal:
-                            value = float(val.as_d());
-                            break;
-                    }
-                },
-                [this](const NoneType&) { op = Spn::IS_NULL; },
-                [](auto&&) { M_unreachable("Unsupported type."); },
-        }, *constant.type());
-    }
-
-    void operator()(const ast::BinaryExpr &binary_expr) {
-        switch (binary_expr.op().type) {
-            case TK_EQUAL:
-                op = Spn::EQUAL;
-                break;
-            case TK_LESS:
-                op = Spn::LESS;
-                break;
-            case TK_LESS_EQUAL:
-                op = Spn::LESS_EQUAL;
-                break;
-            case TK_GREATER:
-                op = Spn::GREATER;
-                break;
-            case TK_GREATER_EQUAL:
-                op = Spn::GREATER_EQUAL;
-                break;
-            default:
-                M_unreachable("Operator can't be handled");
+/** Translates a clause of a CNF to an Spn filter.  Only considers sargable expressions, i.e. clauses with a single
+ * comparison of an attribute to a constant. */
+struct FilterTranslator
+{
+    ThreadSafePooledString attribute = Catalog::Get().pool("");
+    float value = 0;
+    Spn::SpnOperator op = Spn::EQUAL;
+
+    /** Returns `true` iff `clause` could be translated. */
+    bool operator()(const cnf::Clause &clause) {
+        if (clause.size() != 1) return false; // Spns cannot estimate disjunctions
+        auto binary_expr = cast<const ast::BinaryExpr>(&clause[0].expr());
+        if (not binary_expr) return false;
+
+        auto type = binary_expr->op().type;
+        if (clause[0].negative()) {
+            switch (type) {
+                default:                return false;
+                case TK_BANG_EQUAL:     type = TK_EQUAL;         break;
+                case TK_LESS:           type = TK_GREATER_EQUAL; break;
+                case TK_LESS_EQUAL:     type = TK_GREATER;       break;
+                case TK_GREATER:        type = TK_LESS_EQUAL;    break;
+                case TK_GREATER_EQUAL:  type = TK_LESS;          break;
+            }
         }
 
-        (*this)(*binary_expr.lhs);
-        (*this)(*binary_expr.rhs);
+        auto designator = cast<const ast::Designator>(binary_expr->lhs.get());
+        auto constant = cast<const ast::Constant>(binary_expr->rhs.get());
+        const bool is_swapped = not designator;
+        if (is_swapped) {
+            designator = cast<const ast::Designator>(binary_expr->rhs.get());
+            constant = cast<const ast::Constant>(binary_expr->lhs.get());
+        }
+        if (not designator or not constant) return false;
+
+        switch (type) {
+            default:                return false;
+            case TK_EQUAL:          op = Spn::EQUAL;                                            break;
+            case TK_LESS:           op = is_swapped ? Spn::GREATER       : Spn::LESS;           break;
+            case TK_LESS_EQUAL:     op = is_swapped ? Spn::GREATER_EQUAL : Spn::LESS_EQUAL;     break;
+            case TK_GREATER:        op = is_swapped ? Spn::LESS          : Spn::GREATER;        break;
+            case TK_GREATER_EQUAL:  op = is_swapped ? Spn::LESS_EQUAL    : Spn::GREATER_EQUAL;  break;
+        }
+        attribute = designator->attr_name.text.assert_not_none();
+
+        if (constant->type()->is_none()) {
+            op = Spn::IS_NULL;
+            return true;
+        } else if (constant->type()->is_integral()) {
+            value = float(Interpreter::eval(*constant).as_i());
+            return true;
+        } else if (constant->type()->is_floating_point()) {
+            value = float(Interpreter::eval(*constant).as_d());
+            return true;
+        } else if (constant->type()->is_boolean()) {
+            value = float(Interpreter::eval(*constant).as_b());
+            return true;
+        }
+        return false;
     }
-
-    void operator()(const ast::ErrorExpr&) { /* nothing to be done */ }
-    void operator()(const ast::FnApplicationExpr &) { /* nothing to be done */ }
-    void operator()(const ast::UnaryExpr &) { /* nothing to be done */ }
-    void operator()(const ast::QueryExpr &) { /* nothing to be done */ }
 };
 
 /** Visitor to translate a CNF join condition (get the two identifiers of an equi Join). */
@@ -636,19 +632,11 @@ SpnEstimator::estimate_filter(const QueryGraph&, const DataModel &_data, const c
     Spn::Filter translated_filter;
     FilterTranslator ft;
 
-    /* only consider clauses with one element, since Spns cannot estimate disjunctions */
+    /* only consider clauses that can be translated and attributes that are represented by the Spn, i.e. no keys */
     for (auto &clause : filter) {
-        M_insist(clause.size() == 1);
-        ft(*clause[0]);
-        unsigned spn_id;
-
-        if (auto it = attribute_to_id.find(ft.attribute); it != attribute_to_id.end()) {
-            spn_id = it->second;
-        } else {
-            throw data_model_exception("Attribute does not exist.");
-        }
-
-        translated_filter.emplace(spn_id, std::make_pair(ft.op, ft.value));
+        if (not ft(clause)) continue;
+        if (auto it = attribute_to_id.find(ft.attribute); it != attribute_to_id.end())
+            translated_filter.emplace(it->second, std::make_pair(ft.op, ft.value));
     }
 
     /* Save number of rows in the newly constructed data model with the filter applied */
-- 
2.43.0


From 36e95e9d3efc0660844ab3bdc291ca835248a2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:12 +0000
Subject: [PATCH 112/133] fix: estimate joins without SPN support as cartesian
 products

Join conditions other than a comparison of two attributes for equality aborted, and estimating several of them at once
considered the first one only.
---
 src/catalog/CardinalityEstimator.cpp | 76 ++++++++++++----------------
 1 file changed, 33 insertions(+), 43 deletions(-)

diff --git a/src/catalog/CardinalityEstimator.cpp b/src/catalog/CardinalityEstimator.cpp
index 8ddfc4e..d2bc6c6 100644
--- a/src/catalog/CardinalityEstimator.cpp
+++ b/src/catalog/CardinalityEstimator.cpp
@@ -9,6 +9,8 @@
 #include <cstring>
 #include <filesystem>
 #include <limits>
+#include <numeric>
+#include <optional>
 #include <mutable/catalog/Catalog.hpp>
 #include <mutable/IR/CNF.hpp>
 #include <mutable/IR/Operator.hpp>
@@ -514,31 +516,20 @@ struct FilterTranslator
     }
 };
 
-/** Visitor to translate a CNF join condition (get the two identifiers of an equi Join). */
-struct JoinTranslator : ast::ConstASTExprVisitor {
-
-    std::vector<std::pair<ThreadSafePooledString, ThreadSafePooledString>> join_designator;
-
-    using ConstASTExprVisitor::operator();
-
-    void operator()(const ast::Designator &designator) {
-        join_designator.emplace_back(designator.table_name.text, designator.attr_name.text);
-    }
-
-    void operator()(const ast::BinaryExpr &binary_expr) {
-
-        if (binary_expr.op().type != m::TK_EQUAL) { M_unreachable("Operator can't be handled"); }
-
-        (*this)(*binary_expr.lhs);
-        (*this)(*binary_expr.rhs);
-    }
-
-    void operator()(const ast::Constant &) { /* nothing to be done */ }
-    void operator()(const ast::ErrorExpr&) { /* nothing to be done */ }
-    void operator()(const ast::FnApplicationExpr &) { /* nothing to be done */ }
-    void operator()(const ast::UnaryExpr &) { /* nothing to be done */ }
-    void operator()(const ast::QueryExpr &) { /* nothing to be done */ }
-};
+/** Translates a clause of a CNF join condition (get the two identifiers of an equi Join).  Returns `std::nullopt` if the
+ * `clause` is no comparison of two attributes for equality. */
+std::optional<SpnEstimator::SpnJoin> translate_join(const cnf::Clause &clause)
+{
+    if (clause.size() != 1 or not clause[0].is_equi()) return std::nullopt;
+    auto &binary_expr = as<const ast::BinaryExpr>(clause[0].expr());
+    auto first = cast<const ast::Designator>(binary_expr.lhs.get());
+    auto second = cast<const ast::Designator>(binary_expr.rhs.get());
+    if (not first or not second) return std::nullopt;
+    return SpnEstimator::SpnJoin(
+        { first->table_name.text.assert_not_none(), first->attr_name.text.assert_not_none() },
+        { second->table_name.text.assert_not_none(), second->attr_name.text.assert_not_none() }
+    );
+}
 
 }
 
@@ -687,14 +678,13 @@ SpnEstimator::estimate_join(const QueryGraph&, const DataModel &_left, const Dat
     auto new_left = std::make_unique<SpnDataModel>(left);
     auto new_right = std::make_unique<SpnDataModel>(right);
 
-    JoinTranslator jt;
+    /* only consider single equi join */
+    std::optional<SpnJoin> equi_join;
+    for (auto &clause : condition)
+        if (not equi_join) equi_join = translate_join(clause);
 
-    if (not condition.empty()) {
-        /* only consider single equi join */
-        jt(*condition[0][0]);
-        auto first_identifier = std::make_pair(jt.join_designator[0].first, jt.join_designator[0].second);
-        auto second_identifier = std::make_pair(jt.join_designator[1].first, jt.join_designator[1].second);
-        SpnJoin join = std::make_pair(first_identifier, second_identifier);
+    if (equi_join) {
+        SpnJoin &join = *equi_join;
 
         /* if a data model is only responsible for one table (one spn) add the maximum frequency of the value
         * of the joined attribute */
@@ -716,7 +706,7 @@ SpnEstimator::estimate_join(const QueryGraph&, const DataModel &_left, const Dat
 
         new_left->num_rows_ = num_rows_join;
     } else {
-        /* compute cartesian product since there is no join condition */
+        /* compute cartesian product since there is no equi join condition */
         if (left.spns_.size() == 1) { new_left->max_frequencies_.emplace_back(left.num_rows_); }
         if (right.spns_.size() == 1) { new_right->max_frequencies_.emplace_back(right.num_rows_); }
 
@@ -737,8 +727,17 @@ SpnEstimator::operator()(estimate_join_all_tag, PlanTable &&PT, const QueryGraph
                          const cnf::CNF &condition) const
 {
     M_insist(not to_join.empty());
+    /* get all attributes to join on */
+    std::unordered_map<ThreadSafePooledString, ThreadSafePooledString> table_to_attribute;
+    for (auto &clause : condition) {
+        if (auto equi_join = translate_join(clause)) {
+            table_to_attribute.emplace(equi_join->first.first, equi_join->first.second);
+            table_to_attribute.emplace(equi_join->second.first, equi_join->second.second);
+        }
+    }
+
     /* compute cartesian product */
-    if (condition.empty()) {
+    if (table_to_attribute.empty()) {
         auto model = std::make_unique<SpnDataModel>();
         model->num_rows_ = 1UL;
         for (auto it = to_join.begin(); it != to_join.end(); ++it)
@@ -746,15 +745,6 @@ SpnEstimator::operator()(estimate_join_all_tag, PlanTable &&PT, const QueryGraph
         return model;
     }
 
-    /* get all attributes to join on */
-    JoinTranslator jt;
-    std::unordered_map<ThreadSafePooledString, ThreadSafePooledString> table_to_attribute;
-    for (auto clause : condition) {
-        jt(*clause[0]);
-        table_to_attribute.emplace(jt.join_designator[0].first, jt.join_designator[0].second);
-        table_to_attribute.emplace(jt.join_designator[1].first, jt.join_designator[1].second);
-    }
-
     /* get first model to join */
     SpnDataModel final_model = as<const SpnDataModel>(*PT[to_join.begin().as_set()].model);
     ThreadSafePooledString first_table_name = final_model.spns_.begin()->first;
-- 
2.43.0


From a9d26984298aa4681e934fe2d65176ccc277ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:46 +0000
Subject: [PATCH 113/133] fix: avoid division by zero and overflow when
 estimating joins with SPNs

The maximum frequency was undefined for attributes without values and 0 if a filter left fewer rows than there are
distinct values.
---
 .../mutable/catalog/CardinalityEstimator.hpp  |  4 ++
 src/catalog/CardinalityEstimator.cpp          | 38 ++++++++++++-------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/include/mutable/catalog/CardinalityEstimator.hpp b/include/mutable/catalog/CardinalityEstimator.hpp
index acd0689..6531a3e 100644
--- a/include/mutable/catalog/CardinalityEstimator.hpp
+++ b/include/mutable/catalog/CardinalityEstimator.hpp
@@ -371,6 +371,10 @@ struct M_EXPORT SpnEstimator : CardinalityEstimatorCRTP<SpnEstimator>
      */
     static std::pair<unsigned, bool> find_spn_id(const SpnDataModel &data, SpnJoin &join);
 
+    /** Compute the maximum frequency (at least 1) of values of an attribute with `num_distinct_values` many distinct values
+     * in `num_rows` many rows. */
+    static std::size_t max_frequency(std::size_t num_rows, std::size_t num_distinct_values);
+
     /** Compute the maximum frequency of values of the attribute in the join.
      *
      * @param data  the data model
diff --git a/src/catalog/CardinalityEstimator.cpp b/src/catalog/CardinalityEstimator.cpp
index d2bc6c6..1bbbdc3 100644
--- a/src/catalog/CardinalityEstimator.cpp
+++ b/src/catalog/CardinalityEstimator.cpp
@@ -568,6 +568,12 @@ std::pair<unsigned, bool> SpnEstimator::find_spn_id(const SpnDataModel &data, Sp
     return {spn_id, is_primary_key};
 }
 
+std::size_t SpnEstimator::max_frequency(std::size_t num_rows, std::size_t num_distinct_values)
+{
+    if (num_distinct_values == 0) return 1;
+    return std::max<std::size_t>(num_rows / num_distinct_values, 1);
+}
+
 std::size_t SpnEstimator::max_frequency(const SpnDataModel &data, SpnJoin &join)
 {
     auto [spn_id, is_primary_key] = find_spn_id(data, join);
@@ -575,7 +581,7 @@ std::size_t SpnEstimator::max_frequency(const SpnDataModel &data, SpnJoin &join)
     /* maximum frequency is only computed on data models which only have one Spn */
     const SpnWrapper &spn = data.spns_.begin()->second.get();
 
-    return is_primary_key ? 1 : data.num_rows_ / spn.estimate_number_distinct_values(spn_id);
+    return is_primary_key ? 1 : max_frequency(data.num_rows_, spn.estimate_number_distinct_values(spn_id));
 }
 
 std::size_t SpnEstimator::max_frequency(const SpnDataModel &data, const ThreadSafePooledString &attribute)
@@ -585,7 +591,8 @@ std::size_t SpnEstimator::max_frequency(const SpnDataModel &data, const ThreadSa
     auto &attr_to_id = spn.get_attribute_to_id();
     auto find_iter = attr_to_id.find(attribute);
 
-    return find_iter == attr_to_id.end() ? 1 : data.num_rows_ / spn.estimate_number_distinct_values(find_iter->second);
+    return find_iter == attr_to_id.end()
+        ? 1 : max_frequency(data.num_rows_, spn.estimate_number_distinct_values(find_iter->second));
 }
 
 /*----- Model calculation --------------------------------------------------------------------------------------------*/
@@ -694,23 +701,25 @@ SpnEstimator::estimate_join(const QueryGraph&, const DataModel &_left, const Dat
         /* compute the estimated cardinality of the join via distinct count estimates.
          * See http://www.cidrdb.org/cidr2021/papers/cidr2021_paper01.pdf */
         std::size_t mf_left = std::accumulate(
-                new_left->max_frequencies_.begin(), new_left->max_frequencies_.end(), 1, std::multiplies<>());
+                new_left->max_frequencies_.begin(), new_left->max_frequencies_.end(), std::size_t(1), multiply_cardinalities);
 
         std::size_t mf_right = std::accumulate(
-                new_right->max_frequencies_.begin(), new_right->max_frequencies_.end(), 1, std::multiplies<>());
+                new_right->max_frequencies_.begin(), new_right->max_frequencies_.end(), std::size_t(1), multiply_cardinalities);
 
         std::size_t left_clause = new_left->num_rows_ / mf_left;
         std::size_t right_clause = new_right->num_rows_ / mf_right;
 
-        std::size_t num_rows_join = std::min<std::size_t>(left_clause, right_clause) * mf_left * mf_right;
+        std::size_t num_rows_join = multiply_cardinalities(
+            multiply_cardinalities(std::min<std::size_t>(left_clause, right_clause), mf_left), mf_right
+        );
 
         new_left->num_rows_ = num_rows_join;
     } else {
         /* compute cartesian product since there is no equi join condition */
-        if (left.spns_.size() == 1) { new_left->max_frequencies_.emplace_back(left.num_rows_); }
-        if (right.spns_.size() == 1) { new_right->max_frequencies_.emplace_back(right.num_rows_); }
+        if (left.spns_.size() == 1) { new_left->max_frequencies_.emplace_back(std::max<std::size_t>(left.num_rows_, 1)); }
+        if (right.spns_.size() == 1) { new_right->max_frequencies_.emplace_back(std::max<std::size_t>(right.num_rows_, 1)); }
 
-        new_left->num_rows_ = left.num_rows_ * right.num_rows_;
+        new_left->num_rows_ = multiply_cardinalities(left.num_rows_, right.num_rows_);
     }
 
     /* copy data from new_right to new_left to collect all information in one DataModel */
@@ -741,7 +750,8 @@ SpnEstimator::operator()(estimate_join_all_tag, PlanTable &&PT, const QueryGraph
         auto model = std::make_unique<SpnDataModel>();
         model->num_rows_ = 1UL;
         for (auto it = to_join.begin(); it != to_join.end(); ++it)
-            model->num_rows_ *= as<const SpnDataModel>(*PT[it.as_set()].model).num_rows_;
+            model->num_rows_ = multiply_cardinalities(model->num_rows_,
+                                                      as<const SpnDataModel>(*PT[it.as_set()].model).num_rows_);
         return model;
     }
 
@@ -755,7 +765,7 @@ SpnEstimator::operator()(estimate_join_all_tag, PlanTable &&PT, const QueryGraph
     }
     /* else, maximum frequency is set as the number of rows (to compute the cartesian product) */
     else {
-        final_model.max_frequencies_.emplace_back(final_model.spns_.begin()->second.get().num_rows());
+        final_model.max_frequencies_.emplace_back(std::max<std::size_t>(final_model.num_rows_, 1));
     }
 
     /* iteratively add the next model to join via distinct count estimates */
@@ -766,17 +776,19 @@ SpnEstimator::operator()(estimate_join_all_tag, PlanTable &&PT, const QueryGraph
         if (auto find_iter = table_to_attribute.find(table_name); find_iter != table_to_attribute.end()) {
             model.max_frequencies_.emplace_back(max_frequency(model, find_iter->second));
         } else {
-            model.max_frequencies_.emplace_back(model.spns_.begin()->second.get().num_rows());
+            model.max_frequencies_.emplace_back(std::max<std::size_t>(model.num_rows_, 1));
         }
 
         std::size_t mf_left = std::accumulate(
-                final_model.max_frequencies_.begin(), final_model.max_frequencies_.end(), 1, std::multiplies<>());
+                final_model.max_frequencies_.begin(), final_model.max_frequencies_.end(), std::size_t(1), multiply_cardinalities);
         std::size_t mf_right = model.max_frequencies_[0];
 
         std::size_t left_clause = final_model.num_rows_ / mf_left;
         std::size_t right_clause = model.num_rows_ / mf_right;
 
-        std::size_t num_rows_join = std::min<std::size_t>(left_clause, right_clause) * mf_left * mf_right;
+        std::size_t num_rows_join = multiply_cardinalities(
+            multiply_cardinalities(std::min<std::size_t>(left_clause, right_clause), mf_left), mf_right
+        );
 
         final_model.num_rows_ = num_rows_join;
 
-- 
2.43.0


From 80988701edf91ebd7e30c05353540e53768c5476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:46 +0000
Subject: [PATCH 114/133] fix: consider the offset when estimating a limit with
 SPNs

---
 src/catalog/CardinalityEstimator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/catalog/CardinalityEstimator.cpp b/src/catalog/CardinalityEstimator.cpp
index 1bbbdc3..3f2a2fd 100644
--- a/src/catalog/CardinalityEstimator.cpp
+++ b/src/catalog/CardinalityEstimator.cpp
@@ -643,10 +643,11 @@ SpnEstimator::estimate_filter(const QueryGraph&, const DataModel &_data, const c
 }
 
 std::unique_ptr<DataModel>
-SpnEstimator::estimate_limit(const QueryGraph&, const DataModel &data, std::size_t limit, std::size_t) const
+SpnEstimator::estimate_limit(const QueryGraph&, const DataModel &data, std::size_t limit, std::size_t offset) const
 {
     auto model = std::make_unique<SpnDataModel>(as<const SpnDataModel>(data));
-    model->num_rows_ = std::min(model->num_rows_, limit);
+    const std::size_t remaining = offset > model->num_rows_ ? 0UL : model->num_rows_ - offset;
+    model->num_rows_ = std::min(remaining, limit);
     return model;
 }
 
-- 
2.43.0


From 12a5bff6dd6251d9fba312c2b7b6eca4a7263a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:46 +0000
Subject: [PATCH 115/133] fix: clamp the number of groups estimated with SPNs
 to the number of rows to group

---
 src/catalog/CardinalityEstimator.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/catalog/CardinalityEstimator.cpp b/src/catalog/CardinalityEstimator.cpp
index 3f2a2fd..18d3d28 100644
--- a/src/catalog/CardinalityEstimator.cpp
+++ b/src/catalog/CardinalityEstimator.cpp
@@ -667,12 +667,13 @@ std::unique_ptr<DataModel> SpnEstimator::estimate_grouping(const QueryGraph&, co
         auto &spn = spn_it->second.get();
         auto &attr_to_id = spn.get_attribute_to_id();
         if (auto attr_it = attr_to_id.find(designator->attr_name.text.assert_not_none()); attr_it != attr_to_id.end()) {
-            num_rows *= spn.estimate_number_distinct_values(attr_it->second);
+            num_rows = multiply_cardinalities(num_rows, spn.estimate_number_distinct_values(attr_it->second));
         } else {
-            num_rows *= spn.num_rows(); // if attribute is primary key, distinct values = num rows
+            num_rows = multiply_cardinalities(num_rows, spn.num_rows()); // if attribute is primary key, distinct values = num rows
         }
     }
-    model->num_rows_ = num_rows;
+    /* Clamp cardinality to that of the grouping's child since it cannot produce more tuples than it receives. */
+    model->num_rows_ = groups.empty() ? 1 : std::min(num_rows, model->num_rows_);
     return model;
 }
 
-- 
2.43.0


From 05296b902ad4e92de7d994fc5ae50dda46fab41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:46 +0000
Subject: [PATCH 116/133] fix: SPNs estimate scans of renamed tables

---
 src/catalog/CardinalityEstimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/CardinalityEstimator.cpp b/src/catalog/CardinalityEstimator.cpp
index 18d3d28..bf13099 100644
--- a/src/catalog/CardinalityEstimator.cpp
+++ b/src/catalog/CardinalityEstimator.cpp
@@ -608,7 +608,7 @@ std::unique_ptr<DataModel> SpnEstimator::estimate_scan(const QueryGraph &G, Subp
     const auto idx = *P.begin();
     auto &BT = as<const BaseTable>(*G.sources()[idx]);
     /* get the Spn corresponding for the table to scan */
-    if (auto it = table_to_spn_.find(BT.name().assert_not_none()); it != table_to_spn_.end()) {
+    if (auto it = table_to_spn_.find(BT.table().name()); it != table_to_spn_.end()) {
         table_spn_map spns;
         const SpnWrapper &spn = *it->second;
         spns.emplace(BT.name(), spn);
-- 
2.43.0


From e11ef12f24ed1cbda4d71cca4303509f2abc6fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:56 +0000
Subject: [PATCH 117/133] fix: SPNs do not abort estimating composed grouping
 keys and nested joins

Grouping by a composed expression or by an attribute of tables joined as a cartesian product ended in an uncaught
exception, and filtering the result of a nested join aborted.
---
 src/catalog/CardinalityEstimator.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/catalog/CardinalityEstimator.cpp b/src/catalog/CardinalityEstimator.cpp
index bf13099..63f6dbf 100644
--- a/src/catalog/CardinalityEstimator.cpp
+++ b/src/catalog/CardinalityEstimator.cpp
@@ -622,8 +622,8 @@ std::unique_ptr<DataModel>
 SpnEstimator::estimate_filter(const QueryGraph&, const DataModel &_data, const cnf::CNF &filter) const
 {
     auto &data = as<const SpnDataModel>(_data);
-    M_insist(data.spns_.size() == 1);
     auto new_data = std::make_unique<SpnDataModel>(data);
+    if (data.spns_.size() != 1) return new_data; // cannot estimate the effects of filtering the result of a nested join
     auto &spn = new_data->spns_.begin()->second.get();
     auto &attribute_to_id = spn.get_attribute_to_id();
 
@@ -657,12 +657,13 @@ std::unique_ptr<DataModel> SpnEstimator::estimate_grouping(const QueryGraph&, co
     auto model = std::make_unique<SpnDataModel>(as<const SpnDataModel>(data));
     std::size_t num_rows = 1;
     for (auto [grp, alias] : groups) {
+        /* Only Designators of represented tables are supported and no composed expressions. */
         auto designator = cast<const ast::Designator>(&grp.get());
-        if (not designator)
-            throw data_model_exception("SpnEstimator only supports Designators and no composed expressions");
+        if (not designator or not designator->table_name.text.has_value())
+            return model; // cannot estimate the effects of grouping
         auto spn_it = model->spns_.find(designator->table_name.text.assert_not_none());
         if (spn_it == model->spns_.end())
-            throw data_model_exception("Could not find table for grouping.");
+            return model; // cannot estimate the effects of grouping
 
         auto &spn = spn_it->second.get();
         auto &attr_to_id = spn.get_attribute_to_id();
@@ -751,9 +752,12 @@ SpnEstimator::operator()(estimate_join_all_tag, PlanTable &&PT, const QueryGraph
     if (table_to_attribute.empty()) {
         auto model = std::make_unique<SpnDataModel>();
         model->num_rows_ = 1UL;
-        for (auto it = to_join.begin(); it != to_join.end(); ++it)
-            model->num_rows_ = multiply_cardinalities(model->num_rows_,
-                                                      as<const SpnDataModel>(*PT[it.as_set()].model).num_rows_);
+        for (auto it = to_join.begin(); it != to_join.end(); ++it) {
+            auto &child = as<const SpnDataModel>(*PT[it.as_set()].model);
+            model->num_rows_ = multiply_cardinalities(model->num_rows_, child.num_rows_);
+            model->spns_.insert(child.spns_.begin(), child.spns_.end());
+            model->max_frequencies_.emplace_back(std::max<std::size_t>(child.num_rows_, 1));
+        }
         return model;
     }
 
-- 
2.43.0


From b7030f4b5dd2dd947a2127e66eebfaf6dcb0d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:37 +0000
Subject: [PATCH 118/133] fix: sorted_vector::insert and postfix operators of
 projecting_iterator compile

---
 include/mutable/util/ADT.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mutable/util/ADT.hpp b/include/mutable/util/ADT.hpp
index 34ca6a7..eedbc39 100644
--- a/include/mutable/util/ADT.hpp
+++ b/include/mutable/util/ADT.hpp
@@ -725,10 +725,10 @@ struct projecting_iterator<It, ReturnType&(It), OwnsProjection>
     }
 
     projecting_iterator & operator++()  requires requires (It it) { ++it; } { ++it_; return *this; }
-    projecting_iterator operator++(int) requires requires (It it) { it++; } { return it_++; }
+    projecting_iterator operator++(int) requires requires (It it) { it++; } { auto old = *this; it_++; return old; }
 
     projecting_iterator & operator--()  requires requires (It it) { --it; } { --it_; return *this; }
-    projecting_iterator operator--(int) requires requires (It it) { it--; } { return it_--; }
+    projecting_iterator operator--(int) requires requires (It it) { it--; } { auto old = *this; it_--; return old; }
 
     projecting_iterator & operator+=(int offset) requires requires (It it) { it += offset; } { it_ += offset; return *this; }
     projecting_iterator & operator-=(int offset) requires requires (It it) { it -= offset; } { it_ -= offset; return *this; }
@@ -814,7 +814,7 @@ struct sorted_vector
     }
 
     /** Inserts `value` into this `sorted_vector`.  Returns an `iterator` pointing to the inserted element. */
-    auto insert(T value) { return v_.insert(std::lower_bound(begin(), end(), value), value, comp_); }
+    auto insert(T value) { return v_.insert(std::lower_bound(begin(), end(), value, comp_), value); }
 
     /** Inserts elements in the range from `first` (including) to `last` (excluding) into this `sorted_vector. */
     template<typename InsertIt>
-- 
2.43.0


From 738928174dad9149ea3883aca604f7577968546a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:04 +0000
Subject: [PATCH 119/133] fix: LIKE of two long strings does not overflow the
 stack

---
 src/util/fn.cpp | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/util/fn.cpp b/src/util/fn.cpp
index c4b0620..754de74 100644
--- a/src/util/fn.cpp
+++ b/src/util/fn.cpp
@@ -71,11 +71,9 @@ bool m::like(const std::string &str, const std::string &pattern, const char esca
 {
     M_insist('_' != escape_char and '%' != escape_char, "illegal escape character");
 
-    bool dp[pattern.length() + 1][str.length() + 1]; // dp[i][j] == true iff pattern[:i] contains str[:j]
+    /* dp[i][j] == true iff pattern[:i] contains str[:j].  Only two rows of dp are kept: the previous and the current. */
+    std::vector<char> prev(str.length() + 1, false), curr(str.length() + 1, false);
 
-    dp[0][0] = true; // empty pattern contains empty string
-    for (std::size_t j = 1; j <= str.length(); ++j)
-        dp[0][j] = false; // empty pattern does not contain non-empty string
     std::size_t escaped_row = 0;
     for (std::size_t i = 1; i <= pattern.length(); ++i) {
         const auto c = pattern[i - 1];
@@ -84,42 +82,40 @@ bool m::like(const std::string &str, const std::string &pattern, const char esca
             throw m::runtime_error("invalid escape sequence");
         if (not escaped and escape_char == c)
             escaped_row = i + 1; // next row is escaped
-        if (not escaped and '%' == c)
-            dp[i][0] = dp[i - 1][0]; // pattern `X%` contains empty string iff `X` contains empty string
-        else
-            dp[i][0] = false; // pattern without `%`-wildcard does not contain empty string
     }
     if (pattern.length() + 1 == escaped_row)
         throw m::runtime_error("invalid escape sequence");
 
+    prev[0] = true; // empty pattern contains empty string but no non-empty string
     escaped_row = 0;
     for (std::size_t i = 1; i <= pattern.length(); ++i) {
         const auto c = pattern[i - 1];
         const auto escaped = i == escaped_row;
         if (not escaped and escape_char == c) {
-            /* Set `escaped_row` and copy entire above row. */
-            escaped_row = i + 1;
-            for (std::size_t j = 0; j <= str.length(); ++j)
-                dp[i][j] = dp[i - 1][j];
+            escaped_row = i + 1; // next row is escaped, this row equals the above row
             continue;
         }
+        /* pattern `X%` contains empty string iff `X` contains empty string,
+         * pattern without `%`-wildcard does not contain empty string */
+        curr[0] = not escaped and '%' == c and prev[0];
         for (std::size_t j = 1; j <= str.length(); ++j) {
             if (not escaped and '%' == c) {
                 /* pattern `X%` contains string `c_0...c_n` iff either `X%` contains `c_0...c_{n-1}
                  * or `X` contains `c_0...c_n` */
-                dp[i][j] = dp[i][j - 1] or dp[i - 1][j];
+                curr[j] = curr[j - 1] or prev[j];
             } else if ((not escaped and '_' == c) or str[j - 1] == c) {
                 /* pattern `X_` contains string `c_0...c_n` iff `X` contains `c_0...c_{n-1}`,
                  * pattern `Xa` contains string `c_0...c_{n-1}a` iff `X` contains `c_0...c_{n-1}` */
-                dp[i][j] = dp[i - 1][j - 1];
+                curr[j] = prev[j - 1];
             } else {
                 /* pattern `Xa` does not contain string `c_0...c_n` if a != c_n */
-                dp[i][j] = false;
+                curr[j] = false;
             }
         }
+        std::swap(prev, curr);
     }
 
-    return dp[pattern.length()][str.length()];
+    return prev[str.length()];
 }
 
 void m::exec(const char *executable, std::initializer_list<const char*> args)
-- 
2.43.0


From 31d43054a9f301e6b0c4cf4bab13f37dc3cb9310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:04 +0000
Subject: [PATCH 120/133] fix: LIKE of a long string and a constant pattern
 does not overflow the stack

---
 src/backend/StackMachine.cpp | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/backend/StackMachine.cpp b/src/backend/StackMachine.cpp
index d201a25..ca79193 100644
--- a/src/backend/StackMachine.cpp
+++ b/src/backend/StackMachine.cpp
@@ -62,8 +62,6 @@ struct m::StackMachineBuilder : ast::ConstASTExprVisitor
     }
 
     private:
-    static std::unordered_map<std::string, std::regex> regexes_; ///< regexes built from patterns in LIKE expressions
-
     /** Returns a pair of (tuple_id, attr_id). */
     std::pair<std::size_t, std::size_t>
     find_id(const Schema::Identifier &id) const {
@@ -86,8 +84,6 @@ struct m::StackMachineBuilder : ast::ConstASTExprVisitor
     void operator()(Const<ast::QueryExpr> &e) override;
 };
 
-std::unordered_map<std::string, std::regex> StackMachineBuilder::regexes_;
-
 void StackMachineBuilder::operator()(Const<ast::Designator> &e)
 {
     auto [tuple_id, attr_id] = find_id({e.table_name.text, e.attr_name.text.assert_not_none()});
@@ -487,19 +483,12 @@ void StackMachineBuilder::operator()(Const<ast::BinaryExpr> &e)
             break;
 
         case TK_Like: {
-            if (auto rhs = cast<const ast::Constant>(e.rhs.get())) {
-                (*this)(*e.lhs);
-                auto pattern = interpret(*rhs->tok.text);
-                auto it = regexes_.find(pattern);
-                if (it == regexes_.end())
-                    it = StackMachineBuilder::regexes_.insert({pattern, pattern_to_regex(pattern.c_str(), true)}).first;
-                stack_machine_.add_and_emit_load(&(it->second));
-                stack_machine_.emit_Like_const();
-            } else {
-                (*this)(*e.lhs);
-                (*this)(*e.rhs);
-                stack_machine_.emit_Like_expr();
-            }
+            if (auto rhs = cast<const ast::Constant>(e.rhs.get()))
+                like("", interpret(*rhs->tok.text)); // refuse an invalid pattern before evaluating it
+            /* Do not match regular expressions: `std::regex_match()` recurses for every character of the string. */
+            (*this)(*e.lhs);
+            (*this)(*e.rhs);
+            stack_machine_.emit_Like_expr();
             break;
         }
 
-- 
2.43.0


From d8afe4b3a72b20f33c078b0da0d6e4c725e2c419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:56 +0000
Subject: [PATCH 121/133] fix: clamp the estimated cardinality before
 converting it to an integer

The estimate is a double that saturates at 2^64 for large Cartesian products,
which no std::size_t represents, so converting it first is undefined.
---
 src/backend/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index 4fbcecb..d6a15eb 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -1528,7 +1528,7 @@ void Interpreter::operator()(const JoinOperator &op)
             /* The estimate is only a hint, the HT grows on demand.  Estimating a Cartesian product easily exceeds the
              * available memory. */
             constexpr std::size_t MAX_INITIAL_CAPACITY = 1UL << 16;
-            data->ht.resize(std::min<std::size_t>(op.info().estimated_cardinality, MAX_INITIAL_CAPACITY));
+            data->ht.resize(std::min<double>(op.info().estimated_cardinality, MAX_INITIAL_CAPACITY));
         }
         op.child(0)->accept(*this); // build HT on LHS
         if (data->ht.size() == 0) // no tuples produced
-- 
2.43.0


From 458b1ee955f22ad679c4f4a191d8421661eb4f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:26 +0000
Subject: [PATCH 122/133] fix: evaluate hexadecimal floating-point constants

---
 src/backend/Interpreter.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/backend/Interpreter.hpp b/src/backend/Interpreter.hpp
index 82ea38f..d50b430 100644
--- a/src/backend/Interpreter.hpp
+++ b/src/backend/Interpreter.hpp
@@ -250,10 +250,8 @@ struct Interpreter : Backend, ConstOperatorVisitor
 
             /* Float */
             case TK_DEC_FLOAT:
-                return strtod(*c.tok.text, nullptr);
-
             case TK_HEX_FLOAT:
-                M_unreachable("not implemented");
+                return strtod(*c.tok.text, nullptr);
 
             /* String */
             case TK_STRING_LITERAL: {
-- 
2.43.0


From e1c99ed6581beeaa1f6fc24db2afcfbafe12dc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:26 +0000
Subject: [PATCH 123/133] fix: convert boolean (in)equalities to CNF without
 negating formulae in CNF

Negating a formula in CNF is exponential in its size, hence nested
(in)equalities such as 'a != (b != c)' exhausted time and memory.
---
 src/IR/CNF.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/IR/CNF.cpp b/src/IR/CNF.cpp
index 83d7bd0..af3b06f 100644
--- a/src/IR/CNF.cpp
+++ b/src/IR/CNF.cpp
@@ -279,12 +279,18 @@ void CNFGenerator::operator()(Const<BinaryExpr> &e)
         } else if ((not is_negative_ and e.op() == TK_Or) or (is_negative_ and e.op() == TK_And)) {
             result_ = cnf_lhs or cnf_rhs;
         } else if (e.op() == TK_EQUAL or e.op() == TK_BANG_EQUAL) {
-            /* A ↔ B ⇔ (A → B) ^ (B → A) ⇔ (¬A v B) ^ (¬B v A) */
-            auto equiv = ((not cnf_lhs) or cnf_rhs) and ((not cnf_rhs) or cnf_lhs);
+            /* Negate the operands before the conversion.  Negating a formula in CNF would increase its size exponentially. */
+            is_negative_ = not is_negative_;
+            (*this)(*e.lhs);
+            auto not_lhs = result_;
+            (*this)(*e.rhs);
+            auto not_rhs = result_;
+            is_negative_ = not is_negative_;
+
             if ((not is_negative_ and e.op() == TK_BANG_EQUAL) or (is_negative_ and e.op() == TK_EQUAL))
-                result_ = not equiv; // A ↮ B ⇔ ¬(A ↔ B)
+                result_ = (cnf_lhs or cnf_rhs) and (not_lhs or not_rhs); // A ↮ B ⇔ (A v B) ^ (¬A v ¬B)
             else
-                result_ = equiv;
+                result_ = (not_lhs or cnf_rhs) and (not_rhs or cnf_lhs); // A ↔ B ⇔ (¬A v B) ^ (¬B v A)
         } else {
             M_unreachable("unsupported boolean expression");
         }
-- 
2.43.0


From 93d2553a00a0abe7e5a4e70103b9ab57e0a5712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:26 +0000
Subject: [PATCH 124/133] fix: aggregates other than COUNT can be NULL

MIN, MAX, SUM, and AVG of no rows are NULL, also when their argument cannot
be.  Results of queries without grouping were said to be NOT NULL.
---
 include/mutable/parse/AST.hpp | 2 ++
 src/IR/Operator.cpp           | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/mutable/parse/AST.hpp b/include/mutable/parse/AST.hpp
index 3c5adb7..0fbf50d 100644
--- a/include/mutable/parse/AST.hpp
+++ b/include/mutable/parse/AST.hpp
@@ -281,6 +281,8 @@ struct M_EXPORT FnApplicationExpr : PostfixExpr
             case Function::FN_MAX:
             case Function::FN_SUM:
             case Function::FN_AVG:
+                return true; // NULL if there are no rows to aggregate
+
             case Function::FN_INT:
                 M_insist(args.size() == 1);
                 return args[0]->can_be_null();
diff --git a/src/IR/Operator.cpp b/src/IR/Operator.cpp
index a0e21ad..ce5f370 100644
--- a/src/IR/Operator.cpp
+++ b/src/IR/Operator.cpp
@@ -290,7 +290,9 @@ GroupingOperator::GroupingOperator(std::vector<group_type> group_by,
         oss << e.get();
         auto alias = C.pool(oss.str().c_str());
         Schema::entry_type::constraints_t constraints{0};
-        if (not e.get().can_be_null()) // group cannot be empty, thus no default NULL will occur
+        auto &args = e.get().args;
+        if (e.get().get_function().fnid == Function::FN_COUNT or // COUNT cannot be NULL
+            std::none_of(args.begin(), args.end(), [](auto &arg) { return arg->can_be_null(); })) // group cannot be empty
             constraints |= Schema::entry_type::NOT_NULLABLE;
         S.add(std::move(alias), ty, constraints);
     }
-- 
2.43.0


From e113748f1e10231879316048410c0c4ed5dea574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:52 +0000
Subject: [PATCH 125/133] fix: reject hexadecimal numbers without digits before
 the exponent

---
 src/lex/Lexer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lex/Lexer.cpp b/src/lex/Lexer.cpp
index cd0481a..7c93c24 100644
--- a/src/lex/Lexer.cpp
+++ b/src/lex/Lexer.cpp
@@ -167,8 +167,9 @@ Token Lexer::read_number()
         if (is  == Oct) is  = Dec; // there are no octal floating point constants
         if (has == Oct) has = Dec;
         if ('-' == c_ || '+' == c_) push();
-        empty = true;
-        while (is_dec(c_)) { empty = false; push(); }
+        bool has_exponent = false;
+        while (is_dec(c_)) { has_exponent = true; push(); }
+        if (not has_exponent) empty = true;
     }
 
     if (empty or is != has) {
-- 
2.43.0


From d3db6649025793f05bb77622978397c0a16ef514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:48 +0000
Subject: [PATCH 126/133] fix: let execute_statement read an octal number of
 rows like the shell

---
 src/mutable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mutable.cpp b/src/mutable.cpp
index ad8b14f..998d9b9 100644
--- a/src/mutable.cpp
+++ b/src/mutable.cpp
@@ -285,7 +285,7 @@ void m::execute_statement(Diagnostic &diag, const ast::Stmt &stmt, const bool is
         auto &T = DB.get_table(S->table_name.text.assert_not_none());
 
         DSVReader::Config cfg;
-        if (S->rows) cfg.num_rows = strtol(*S->rows.text, nullptr, 10);
+        if (S->rows) cfg.num_rows = strtoull(*S->rows.text, nullptr, 0);
         if (S->delimiter) cfg.delimiter = unescape(*S->delimiter.text)[1];
         if (S->escape) cfg.escape = unescape(*S->escape.text)[1];
         if (S->quote) cfg.quote = unescape(*S->quote.text)[1];
-- 
2.43.0


From 6afe3f36e9252a9664a239f9cfa495213a70f1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:07 +0000
Subject: [PATCH 127/133] fix: a refused attribute must not stay known to its
 table

---
 include/mutable/catalog/Schema.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mutable/catalog/Schema.hpp b/include/mutable/catalog/Schema.hpp
index ef28041..500fb7a 100644
--- a/include/mutable/catalog/Schema.hpp
+++ b/include/mutable/catalog/Schema.hpp
@@ -722,10 +722,10 @@ struct M_EXPORT ConcreteTable : Table
     /** Adds a new attribute with the given `name` and `type` to the table.  Throws `std::invalid_argument` if the
      * `name` is already in use. */
     void push_back(ThreadSafePooledString name, const PrimitiveType *type) override {
-        auto res = name_to_attr_.emplace(name, attrs_.size());
-        if (not res.second)
+        if (name_to_attr_.contains(name))
             throw std::invalid_argument("attribute name already in use");
-        attrs_.emplace_back(Attribute(attrs_.size(), *this, type, std::move(name)));
+        attrs_.emplace_back(Attribute(attrs_.size(), *this, type, name)); // throws if `type` is not vectorial
+        name_to_attr_.emplace(std::move(name), attrs_.size() - 1);
     }
 
     /** Returns a `Schema` for this `Table` given the alias `alias`. */
-- 
2.43.0


From a6ea0c3ca68ebaec1b102065b6f0515a7cbc83fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:26 +0000
Subject: [PATCH 128/133] fix: evaluate groupings and joins on the schema of
 their pipeline

Once schemas are minimized, a filter provides only a part of the schema of its child, yet the interpreter passes on the tuples
of the child.  Grouping, aggregation, and buffering tuples for a join relied on the schema of the filter.
---
 src/backend/Interpreter.cpp | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/backend/Interpreter.cpp b/src/backend/Interpreter.cpp
index d6a15eb..c825316 100644
--- a/src/backend/Interpreter.cpp
+++ b/src/backend/Interpreter.cpp
@@ -750,22 +750,21 @@ struct LimitData : OperatorData
 struct GroupingData : OperatorData
 {
     Pipeline pipeline;
-    StackMachine compute_key; ///< computes the key for a tuple
+    std::optional<StackMachine> compute_key; ///< computes the key for a tuple
     std::vector<StackMachine> compute_aggregate_arguments; ///< StackMachines to compute the argumetns of aggregations
     std::vector<Tuple> args; ///< tuple used to hold the computed arguments
 
-    GroupingData(const GroupingOperator &op)
-        : pipeline(op.schema())
-        , compute_key(op.child(0)->schema())
-    {
-        std::ostringstream oss;
+    GroupingData(const GroupingOperator &op) : pipeline(op.schema()) { }
 
+    /** Compiles the `StackMachine`s to evaluate `op` on tuples of the `pipeline_schema`. */
+    void compile(const GroupingOperator &op, const Schema &pipeline_schema) {
         /* Compile the stack machine to compute the key and compute the key schema. */
         {
+            compute_key.emplace(pipeline_schema);
             std::size_t key_idx = 0;
             for (auto [grp, alias] : op.group_by()) {
-                compute_key.emit(grp.get(), 1);
-                compute_key.emit_St_Tup(0, key_idx++, grp.get().type());
+                compute_key->emit(grp.get(), 1);
+                compute_key->emit_St_Tup(0, key_idx++, grp.get().type());
             }
         }
 
@@ -774,7 +773,7 @@ struct GroupingData : OperatorData
         for (auto agg : op.aggregates()) {
             auto &fe = as<const ast::FnApplicationExpr>(agg.get());
             std::size_t arg_idx = 0;
-            StackMachine sm(op.child(0)->schema());
+            StackMachine sm(pipeline_schema);
             std::vector<const Type*> arg_types;
             for (auto &arg : fe.args) {
                 /* COUNT does not require the value of its argument. */
@@ -806,11 +805,14 @@ struct AggregationData : OperatorData
         for (auto &e : op.schema())
             types.push_back(e.type);
         aggregates = Tuple(std::move(types));
+    }
 
+    /** Compiles the `StackMachine`s to evaluate the aggregates of `op` on tuples of the `pipeline_schema`. */
+    void compile(const AggregationOperator &op, const Schema &pipeline_schema) {
         for (auto agg : op.aggregates()) {
             auto &fe = as<const ast::FnApplicationExpr>(agg.get());
             std::size_t arg_idx = 0;
-            StackMachine sm(op.child(0)->schema());
+            StackMachine sm(pipeline_schema);
             std::vector<const Type*> arg_types;
             for (auto &arg : fe.args) {
                 /* COUNT does not require the value of its argument. */
@@ -1097,12 +1099,11 @@ void Pipeline::operator()(const JoinOperator &op)
                 data->load_build_key(this->schema());
                 data->emit_load_attrs(this->schema());
             }
-            const auto &tuple_schema = op.child(0)->schema();
             for (auto &t : block_) {
                 args[1] = &t;
                 data->build_key(args);
                 if (data->key_is_null()) continue; // NULL is not equal to anything
-                data->ht.insert_with_duplicates(args[0]->clone(data->key_schema), t.clone(tuple_schema));
+                data->ht.insert_with_duplicates(args[0]->clone(data->key_schema), t.clone(this->schema()));
             }
         }
     } else {
@@ -1190,14 +1191,13 @@ void Pipeline::operator()(const JoinOperator &op)
             }
         } else {
             /* This is not the right-most child.  Collect its produced tuples in a buffer. */
-            const auto &tuple_schema = op.child(data->active_child)->schema();
             if (data->buffer_schemas.size() <= data->active_child) {
                 data->buffer_schemas.emplace_back(this->schema()); // save the schema of the current pipeline
                 data->emit_load_attrs(this->schema());
                 M_insist(data->buffer_schemas.size() == data->load_attrs.size());
             }
             for (auto &t : block_)
-                data->buffers[data->active_child].emplace_back(t.clone(tuple_schema));
+                data->buffers[data->active_child].emplace_back(t.clone(this->schema()));
         }
     }
 }
@@ -1349,11 +1349,13 @@ void Pipeline::operator()(const GroupingOperator &op)
     /* Find the group. */
     auto data = as<HashBasedGroupingData>(op.data());
     auto &groups = data->groups;
+    if (not data->compute_key)
+        data->compile(op, this->schema());
 
     Tuple key(op.schema());
     for (auto &tuple : block_) {
         Tuple *args[] = { &key, &tuple };
-        data->compute_key(args);
+        (*data->compute_key)(args);
         auto it = groups.find(key);
         if (it == groups.end()) {
             /* Initialize the group's aggregate to NULL.  This will be overwritten by the neutral element w.r.t.
@@ -1368,6 +1370,8 @@ void Pipeline::operator()(const GroupingOperator &op)
 void Pipeline::operator()(const AggregationOperator &op)
 {
     auto data = as<AggregationData>(op.data());
+    if (data->compute_aggregate_arguments.empty())
+        data->compile(op, this->schema());
 
     for (auto &tuple : block_) {
         for (std::size_t i = 0, end = op.aggregates().size(); i != end; ++i) {
-- 
2.43.0


From f1a182bab7e1897262520157d5e16c85fe5f2077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:26 +0000
Subject: [PATCH 129/133] fix: scalar and vectorial entries of the same type
 match in an intersection of schemas

The results of a nested query become vectorial, while the grouping keys and aggregates below remain scalar.
---
 include/mutable/catalog/Schema.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mutable/catalog/Schema.hpp b/include/mutable/catalog/Schema.hpp
index 500fb7a..dca8a7a 100644
--- a/include/mutable/catalog/Schema.hpp
+++ b/include/mutable/catalog/Schema.hpp
@@ -261,7 +261,9 @@ inline Schema operator&(const Schema &left, const Schema &right)
     for (auto &e : left) {
         auto it = right.find(e.id);
         if (it != right.end()) {
-            if (e.type != it->type)
+            auto l = cast<const PrimitiveType>(e.type);
+            auto r = cast<const PrimitiveType>(it->type);
+            if (l and r ? l->as_vectorial() != r->as_vectorial() : e.type != it->type) // scalar and vectorial match
                 throw invalid_argument("type mismatch");
             res.add(e.id, e.type, e.constraints | it->constraints); // merge constraints from both
         }
-- 
2.43.0


From 95c7dc20c7e0b193c2f2157b2e73be524f73c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:26 +0000
Subject: [PATCH 130/133] fix: minimize schemas of operators of which nothing
 is required

---
 src/IR/Operator.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/IR/Operator.cpp b/src/IR/Operator.cpp
index ce5f370..2740d85 100644
--- a/src/IR/Operator.cpp
+++ b/src/IR/Operator.cpp
@@ -449,8 +449,7 @@ void SchemaMinimizer::operator()(ProjectionOperator &op)
         }
     }
     M_insist(pos_out <= op.projections().size());
-    const auto &dummy = op.projections()[0];
-    op.projections().resize(pos_out, dummy);
+    op.projections().erase(op.projections().begin() + pos_out, op.projections().end()); // discard unrequired projections
 
     op.schema() = std::move(ours);
     required = std::move(required_by_op);
@@ -499,8 +498,7 @@ void SchemaMinimizer::operator()(GroupingOperator &op)
             }
         }
         M_insist(pos_out <= op.aggregates().size());
-        const ast::FnApplicationExpr &dummy = op.aggregates()[0].get();
-        op.aggregates().resize(pos_out, dummy); // discard unrequired aggregates
+        op.aggregates().erase(op.aggregates().begin() + pos_out, op.aggregates().end()); // discard unrequired aggregates
     }
 
     op.schema() = std::move(ours);
@@ -512,7 +510,6 @@ void SchemaMinimizer::operator()(GroupingOperator &op)
 
 void SchemaMinimizer::operator()(AggregationOperator &op)
 {
-    M_insist(not op.aggregates().empty());
     Catalog &C = Catalog::Get();
     std::ostringstream oss;
 
@@ -536,8 +533,7 @@ void SchemaMinimizer::operator()(AggregationOperator &op)
         }
     }
     M_insist(pos_out <= op.aggregates().size());
-    const ast::FnApplicationExpr &dummy = op.aggregates()[0].get();
-    op.aggregates().resize(pos_out, dummy); // discard unrequired aggregates
+    op.aggregates().erase(op.aggregates().begin() + pos_out, op.aggregates().end()); // discard unrequired aggregates
 
     op.schema() = std::move(ours);
     required = std::move(required_by_op);
-- 
2.43.0


From 8e94283544c87a0f3076f022d469a0efbddc0522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:31 +0000
Subject: [PATCH 131/133] fix: a projection does not inherit constraints by the
 name of an alias

---
 src/IR/Operator.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/IR/Operator.cpp b/src/IR/Operator.cpp
index 2740d85..0b010ce 100644
--- a/src/IR/Operator.cpp
+++ b/src/IR/Operator.cpp
@@ -456,7 +456,19 @@ void SchemaMinimizer::operator()(ProjectionOperator &op)
     is_top_of_plan_ = false;
     if (not const_cast<const ProjectionOperator&>(op).children().empty()) {
         (*this)(*op.child(0));
-        add_constraints(op.schema(), op.child(0)->schema()); // add constraints from child
+
+        /* Add constraints from child to entries that are passed on.  An alias is no evidence for that, since the child may
+         * provide a different entry of this name. */
+        auto &constraints = op.child(0)->schema();
+        for (std::size_t idx = 0; idx != op.projections().size(); ++idx) {
+            auto &[proj, alias] = op.projections()[idx];
+            auto &e = op.schema()[idx];
+            auto D = cast<const ast::Designator>(&proj.get());
+            if (not D and alias.has_value()) continue;
+            auto it = constraints.find(D ? Schema::Identifier(D->table_name.text, D->attr_name.text.assert_not_none()) : e.id);
+            if (it != constraints.end())
+                e.constraints |= it->constraints;
+        }
     }
 }
 
-- 
2.43.0


From e27288af4498c43d37cbfdd298bdd603df71ae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:56 +0000
Subject: [PATCH 132/133] fix: a query graph with an anonymous nested query can
 be drawn

---
 src/IR/QueryGraph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/IR/QueryGraph.cpp b/src/IR/QueryGraph.cpp
index 8eae4b6..54f7569 100644
--- a/src/IR/QueryGraph.cpp
+++ b/src/IR/QueryGraph.cpp
@@ -1957,7 +1957,8 @@ void QueryGraph::dot_recursive(std::ostream &out) const
 
     for (auto &ds : sources()) {
         out << "    " << id(*ds) << " [label=<";
-        out << "<B>" << ds->name() << "</B>";
+        if (auto name = ds->name(); name.has_value()) // e.g. the query below a HAVING clause is anonymous
+            out << "<B>" << name << "</B>";
         if (ds->filter().size())
             out << "<BR/><FONT COLOR=\"0.0 0.0 0.25\" POINT-SIZE=\"10\">"
                 << html_escape(to_string(ds->filter()))
-- 
2.43.0


From 535ae74fc4ca0f861dd414305db65cb544640def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:53 +0000
Subject: [PATCH 133/133] fix: every list of partial plans written is valid
 JSON, not just the first

---
 src/IR/PartialPlanGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IR/PartialPlanGenerator.cpp b/src/IR/PartialPlanGenerator.cpp
index df84594..bc40a9c 100644
--- a/src/IR/PartialPlanGenerator.cpp
+++ b/src/IR/PartialPlanGenerator.cpp
@@ -118,10 +118,10 @@ void PartialPlanGenerator::write_partial_plans_JSON(std::ostream &out, const Que
      *      { A(BC) }   --> [ "@ A @ B C" ]
      *      { (AB)C }   --> [ "@ @ A B C" ]
      */
+    bool is_first = true;
     auto write_partial_plan = [&](const partial_plan_type &partial_plans) {
         M_insist(not partial_plans.empty());
 
-        static bool is_first = true;
         if (is_first)
             is_first = false;
         else
-- 
2.43.0

