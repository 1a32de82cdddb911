From bacd6ea009e7b7bf2d13250417efc59751320c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:40:39 +0000
Subject: [PATCH 01/74] fix: treat every non-empty range of amounts as
 satisfiable

A range such as (5, 6, step 10) admits the amount 5, but it was reported as
unsatisfiable because the distance between its bounds was compared with
start % step.
---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index e38052d..489991f 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -401,7 +401,7 @@ namespace nil {
                 : start(start), finish(finish_), step(step) {}
 
             bool is_satisfiable() override {
-                return start < finish && std::abs(start - finish) >= int(start % step);
+                return start < finish;
             }
 
             bool check_manifest_param(std::uint32_t value, bool strict = true) override {
-- 
2.43.0


From b059de7db7493a0b16eda1e25fd75ac7ddebf07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:40:39 +0000
Subject: [PATCH 02/74] fix: do not iterate over amounts of an empty range

A range with start > finish yielded its start value once when iterated.
---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 489991f..ca07b70 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -423,7 +423,7 @@ namespace nil {
             }
 
             manifest_param_iterator begin() const override {
-                return manifest_param_iterator(this, start);
+                return manifest_param_iterator(this, start < finish ? start : finish);
             }
 
             manifest_param_iterator end() const override {
-- 
2.43.0


From 0ae43384e0d97022fd96ec3e1b0035907d7fe224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:40:39 +0000
Subject: [PATCH 03/74] fix: compute the largest amount of a range relative to
 its start

The largest amount was derived from finish % step, which is only right when
the start of the range is a multiple of the step.
---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index ca07b70..1a39f39 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -436,7 +436,7 @@ namespace nil {
             }
 
             std::uint32_t max_value_if_sat() const override {
-                return finish - ((finish % step) ? (finish % step) : step);
+                return start + (finish - 1 - start) / std::int32_t(step) * std::int32_t(step);
             }
 
             // Isn't strict equality: some ranges are isomorphic, and we don't check that.
-- 
2.43.0


From 3a910c061f6d52bbe724bb06e868099e7a51af63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:40:39 +0000
Subject: [PATCH 04/74] fix: non-strict check of a set of amounts accepts
 larger amounts

The other kinds of parameters accept any amount which is at least the smallest
admissible one. The set accepted amounts below its largest element instead, so
a component could be instantiated with fewer columns than any of its options.
---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 1a39f39..fe99144 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -461,7 +461,7 @@ namespace nil {
                 if (strict) {
                     return set.find(value) != set.end();
                 } else {
-                    return set.lower_bound(value) != set.end();
+                    return !set.empty() && *set.begin() <= value;
                 }
             }
 
-- 
2.43.0


From 9cbe8301ddd3fc22eb232d57e95a05d060affd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:40:39 +0000
Subject: [PATCH 05/74] fix: intersection of misaligned ranges with equal steps
 is empty

Ranges such as (0, 10, step 2) and (1, 10, step 2) have no common amount, but
their intersection was reported as (1, 10, step 2).
---
 include/nil/blueprint/manifest.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index fe99144..1aa9e19 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -728,6 +728,9 @@ namespace nil {
                 std::uint32_t other_step = other_range->step;
                 std::int32_t new_start, new_finish, new_step;
                 if (step == other_step) {
+                    if (start % int(step) != other_start % int(step)) {
+                        return std::shared_ptr<manifest_param>(new manifest_unsat_param());
+                    }
                     new_start = std::max(start, other_start);
                     new_finish = std::min(finish, other_finish);
                     new_step = step;
-- 
2.43.0


From 8f1dd920d55b45b400587497c4ff8086b9e088db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:40:39 +0000
Subject: [PATCH 06/74] fix: keep the last remaining amount when subtracting
 from the end of a range

Removing the largest amounts of a range also removed the largest amount which
was not asked to be removed.
---
 include/nil/blueprint/manifest.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 1aa9e19..ca5882f 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -807,7 +807,7 @@ namespace nil {
 
                 bool end_contigious = false;
                 count = 0;
-                curr_value = finish - finish % step;
+                curr_value = max_value_if_sat();
                 for (auto it = filtered_set.rbegin(); it != filtered_set.rend(); it++) {
                     if (*it != std::uint32_t(curr_value)) {
                         break;
@@ -819,7 +819,7 @@ namespace nil {
                 end_contigious = count == filtered_set.size();
                 if (end_contigious) {
                     if (curr_value > start) {
-                        return std::shared_ptr<manifest_param>(new manifest_range_param(start, curr_value, step));
+                        return std::shared_ptr<manifest_param>(new manifest_range_param(start, curr_value + 1, step));
                     } else if (curr_value == start) {
                         return std::shared_ptr<manifest_param>(new manifest_single_value_param(start));
                     } else {
-- 
2.43.0


From 6e6365f4f4c1d73667a08775b46d1e91cf258e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:40:39 +0000
Subject: [PATCH 07/74] fix: include the maximum itself when changing the
 compiler witness limit

The constructor of the compiler manifest allows components to use all of the
witness columns; set_max_witness_amount allowed one less.
---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index ca5882f..a8c2a20 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -973,7 +973,7 @@ namespace nil {
 
             void set_max_witness_amount(std::uint32_t max) {
                 max_witness_columns = max;
-                witness_amount = std::shared_ptr<manifest_param>(new manifest_range_param(0, max));
+                witness_amount = std::shared_ptr<manifest_param>(new manifest_range_param(0, max + 1));
             }
 
             std::uint32_t get_max_witness_amount() const {
-- 
2.43.0


From 097e953ccd15980ca8edaaf12366ca87390fef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:19 +0000
Subject: [PATCH 08/74] fix: do not merge misaligned ranges with equal steps
 into a single range

Merging (0, 20, step 2) with (1, 10, step 2) produced (1, 20, step 2), which
contains amounts neither of the components can work with.
---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index a8c2a20..a7f181b 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -673,7 +673,7 @@ namespace nil {
                     other_range->start);
                 // technically, there are some other cases there this might be resolved as range
                 // this might be good enough though
-                if (step == other_range->step) {
+                if (step == other_range->step && start % int(step) == other_range->start % int(step)) {
                     std::int32_t new_finish = std::max(finish, other_range->finish);
                     if (new_start < new_finish) {
                         return std::shared_ptr<manifest_param>(
-- 
2.43.0


From 1dd36ce782c8dadf9dab9cb108b4b39cb358bd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:19 +0000
Subject: [PATCH 09/74] fix: merge with a range keeps the offset of its amounts

Merging a range with a single amount or with a set rounded up to multiples of
the step, so a range such as (1, 10, step 2) turned into even amounts.
---
 include/nil/blueprint/manifest.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index a7f181b..89edc7a 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -435,6 +435,11 @@ namespace nil {
                 return (prev_value + step < std::uint32_t(finish)) ? (prev_value + step) : finish;
             }
 
+            // The first value of the progression which is not less than the passed one
+            std::int32_t first_value_from(std::int32_t value) const {
+                return value <= start ? start : start + (value - start + int(step) - 1) / int(step) * int(step);
+            }
+
             std::uint32_t max_value_if_sat() const override {
                 return start + (finish - 1 - start) / std::int32_t(step) * std::int32_t(step);
             }
@@ -563,9 +568,7 @@ namespace nil {
                 return std::shared_ptr<manifest_param>(new manifest_set_param(new_set));
             } if (other_type == type::RANGE) {
                 auto range = dynamic_cast<manifest_range_param*>(other.get());
-                std::uint32_t new_start = std::max<std::int32_t>(
-                    this->value + (range->step - (this->value % range->step)) % range->step,
-                    range->start);
+                std::uint32_t new_start = range->first_value_from(this->value);
                 if (new_start < std::uint32_t(range->finish)) {
                     return std::shared_ptr<manifest_param>(
                             new manifest_range_param(new_start, range->finish, range->step));
@@ -621,7 +624,7 @@ namespace nil {
                     new_set.insert(*it);
                 }
                 std::uint32_t step = range->step;
-                for (auto it = new_start + (step - new_start % step) % step; std::int32_t(it) < range->finish; it += step) {
+                for (std::uint32_t it = range->first_value_from(new_start); std::int32_t(it) < range->finish; it += step) {
                     new_set.insert(it);
                 }
                 if (new_set.empty()) {
@@ -640,9 +643,7 @@ namespace nil {
                 return std::shared_ptr<manifest_param>(new manifest_unsat_param());
             } else if (other_type == type::SINGLE_VALUE) {
                 std::uint32_t other_value = dynamic_cast<manifest_single_value_param*>(other.get())->value;
-                std::uint32_t new_start = std::max<std::int32_t>(
-                    other_value + (step - (other_value % step)) % step,
-                    start);
+                std::uint32_t new_start = first_value_from(other_value);
                 if (new_start < std::uint32_t(finish)) {
                     return std::shared_ptr<manifest_param>(
                             new manifest_range_param(new_start, finish, step));
@@ -658,7 +659,7 @@ namespace nil {
                 for (auto it = other_set->set.lower_bound(new_start); it !=  other_set->set.end(); it++) {
                     new_set.insert(*it);
                 }
-                for (auto it = new_start + (step - new_start % step) % step; it < std::uint32_t(finish); it += step) {
+                for (std::uint32_t it = first_value_from(new_start); it < std::uint32_t(finish); it += step) {
                     new_set.insert(it);
                 }
                 if (new_set.empty()) {
-- 
2.43.0


From a990363fbc791190a58400c29a75e6fbb38abe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:19 +0000
Subject: [PATCH 10/74] fix: merge of a set with a range which is above all of
 its amounts

The end iterator of the set was dereferenced. Only the amounts of the range
are large enough for both of the components in this case.
---
 include/nil/blueprint/manifest.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 89edc7a..c7429e8 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -616,9 +616,12 @@ namespace nil {
                 }
             } if (other_type == type::RANGE) {
                 auto range = dynamic_cast<manifest_range_param*>(other.get());
-                std::uint32_t new_start = std::max<std::int32_t>(
-                    *set.lower_bound(range->start),
-                    range->start);
+                auto first = set.lower_bound(range->start);
+                if (first == set.end()) {
+                    return std::shared_ptr<manifest_param>(
+                            new manifest_range_param(range->start, range->finish, range->step));
+                }
+                std::uint32_t new_start = *first;
                 std::set<std::uint32_t> new_set = {new_start};
                 for (auto it = set.lower_bound(new_start); it != set.end(); it++) {
                     new_set.insert(*it);
@@ -652,9 +655,11 @@ namespace nil {
                 }
             } else if (other_type == type::SET) {
                 auto other_set = dynamic_cast<manifest_set_param*>(other.get());
-                std::uint32_t new_start = std::max<std::int32_t>(
-                    *other_set->set.lower_bound(start),
-                    start);
+                auto first = other_set->set.lower_bound(start);
+                if (first == other_set->set.end()) {
+                    return std::shared_ptr<manifest_param>(new manifest_range_param(start, finish, step));
+                }
+                std::uint32_t new_start = *first;
                 std::set<std::uint32_t> new_set = {new_start};
                 for (auto it = other_set->set.lower_bound(new_start); it !=  other_set->set.end(); it++) {
                     new_set.insert(*it);
-- 
2.43.0


From 427c43f72215b2256304c88b53cc8034f3100639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:19 +0000
Subject: [PATCH 11/74] fix: merge with an empty set or range is unsatisfiable

Only the explicit unsatisfiable parameter was handled; merging a component
whose set or range of amounts is empty silently ignored that component.
---
 include/nil/blueprint/manifest.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index c7429e8..73e6b43 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -546,7 +546,7 @@ namespace nil {
                                 std::shared_ptr<manifest_param> other) {
             using type = manifest_param::type;
             type other_type = get_manifest_param_type(other);
-            if (other_type == type::UNSAT) {
+            if (!other->is_satisfiable()) {
                 return std::shared_ptr<manifest_param>(new manifest_unsat_param());
             } else if (other_type == type::SINGLE_VALUE) {
                 auto other_value = dynamic_cast<manifest_single_value_param*>(other.get())->value;
@@ -582,7 +582,7 @@ namespace nil {
         inline std::shared_ptr<manifest_param> manifest_set_param::merge_with(std::shared_ptr<manifest_param> other) {
             using type = manifest_param::type;
             type other_type = get_manifest_param_type(other);
-            if (other_type == type::UNSAT) {
+            if (!is_satisfiable() || !other->is_satisfiable()) {
                 return std::shared_ptr<manifest_param>(new manifest_unsat_param());
             } else if (other_type == type::SINGLE_VALUE) {
                 auto other_value = dynamic_cast<manifest_single_value_param*>(other.get())->value;
@@ -642,7 +642,7 @@ namespace nil {
         inline std::shared_ptr<manifest_param> manifest_range_param::merge_with(std::shared_ptr<manifest_param> other) {
             using type = manifest_param::type;
             type other_type = get_manifest_param_type(other);
-            if (other_type == type::UNSAT) {
+            if (!is_satisfiable() || !other->is_satisfiable()) {
                 return std::shared_ptr<manifest_param>(new manifest_unsat_param());
             } else if (other_type == type::SINGLE_VALUE) {
                 std::uint32_t other_value = dynamic_cast<manifest_single_value_param*>(other.get())->value;
-- 
2.43.0


From 36a8a3e44654423ebe286bb14df421f5b40be852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:43:16 +0000
Subject: [PATCH 12/74] fix: distribute tasks between agents when all of the
 tasks are empty

The search interval was empty when every task had zero size, so none of the
tasks was assigned to an agent.
---
 include/nil/blueprint/detail/huang_lu.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/detail/huang_lu.hpp b/include/nil/blueprint/detail/huang_lu.hpp
index bf17350..4aee169 100644
--- a/include/nil/blueprint/detail/huang_lu.hpp
+++ b/include/nil/blueprint/detail/huang_lu.hpp
@@ -53,7 +53,7 @@ namespace nil {
                     std::unordered_map<std::size_t, std::size_t> best_assignment;
                     std::unordered_map<std::size_t, std::size_t> assignment;
                     std::list<std::pair<std::size_t, std::size_t>> tasks_remaning;
-                    while (left < right) {
+                    while (left <= right) {
                         std::size_t threshold = left + (right - left) / 2;
                         tasks_remaning = sizes;
 
-- 
2.43.0


From e5aa07628a1d2a73380ca7d178b5257c2980a95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:07 +0000
Subject: [PATCH 13/74] fix: allow lookup table values to use all hexadecimal
 digits of the field

The digit limit of the parser was computed as if a hexadecimal digit held
sixteen bits. Longer values were silently split into several shorter ones.
---
 include/nil/blueprint/detail/lookup_table_loaders.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/detail/lookup_table_loaders.hpp b/include/nil/blueprint/detail/lookup_table_loaders.hpp
index 8e80698..263dc6d 100644
--- a/include/nil/blueprint/detail/lookup_table_loaders.hpp
+++ b/include/nil/blueprint/detail/lookup_table_loaders.hpp
@@ -55,7 +55,7 @@ namespace nil {
                         using boost::phoenix::construct;
                         using boost::phoenix::val;
                         auto number = uint_parser<integral_type, 16, 1,
-                                                  (BlueprintFieldType::modulus_bits + 16 - 1) / 16>();
+                                                  (BlueprintFieldType::modulus_bits + 4 - 1) / 4>();
                         start = repeat(size)[number];
 
                         boost::spirit::qi::on_error<boost::spirit::qi::fail>(
-- 
2.43.0


From 4d02122d2bd584bb04d7c309cd88cb0aadf08f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:07 +0000
Subject: [PATCH 14/74] fix: reject lookup table rows with trailing data

Only the beginning of each row was parsed, so rows with more values than
columns, or with malformed trailing values, were silently accepted.
---
 include/nil/blueprint/detail/lookup_table_loaders.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/detail/lookup_table_loaders.hpp b/include/nil/blueprint/detail/lookup_table_loaders.hpp
index 263dc6d..f2ee3ca 100644
--- a/include/nil/blueprint/detail/lookup_table_loaders.hpp
+++ b/include/nil/blueprint/detail/lookup_table_loaders.hpp
@@ -87,9 +87,10 @@ namespace nil {
                         std::vector<value_type> row;
                         value_vector_parser<decltype(line.begin()), BlueprintFieldType> parser(line_size);
                         boost::spirit::qi::ascii::space_type space;
+                        auto line_it = line.begin();
                         bool parsing_result =
-                            boost::spirit::qi::phrase_parse(line.begin(), line.end(), parser, space, row);
-                        if (!parsing_result) {
+                            boost::spirit::qi::phrase_parse(line_it, line.end(), parser, space, row);
+                        if (!parsing_result || line_it != line.end()) {
                             return false;
                         }
                         for (std::size_t j = 0; j < line_size; j++) {
-- 
2.43.0


From 0ee834f537bb308eb34e481a76ac4d13c75b62e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:07 +0000
Subject: [PATCH 15/74] fix: report a malformed lookup table header as a
 parsing failure

A file without a table size threw an exception instead of failing to parse, so
the remaining candidate files were never tried.
---
 include/nil/blueprint/detail/lookup_table_loaders.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/detail/lookup_table_loaders.hpp b/include/nil/blueprint/detail/lookup_table_loaders.hpp
index f2ee3ca..ece1ee9 100644
--- a/include/nil/blueprint/detail/lookup_table_loaders.hpp
+++ b/include/nil/blueprint/detail/lookup_table_loaders.hpp
@@ -77,7 +77,11 @@ namespace nil {
                     std::string line;
                     // Get the table size
                     std::getline(ist, line);
-                    std::size_t table_size = std::stoull(line);
+                    std::size_t table_size = 0;
+                    std::istringstream header(line);
+                    if (!(header >> table_size)) {
+                        return false;
+                    }
                     result.resize(line_size);
                     for (auto &column : result) {
                         column.resize(table_size);
-- 
2.43.0


From 4f675e2a6530fcfb8f7591e9fa3a8cfc18915de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:43 +0000
Subject: [PATCH 16/74] fix: keep constants used by gates when placing batched
 constants

The row of a constant used in a gate was compared with the start row as if
the variable were absolute, so a rotation of 0 or 1 was never seen as used
and a rotation of -1 indexed outside the list of used rows.
---
 .../blueprint/blueprint/plonk/assignment.hpp  | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment.hpp b/include/nil/blueprint/blueprint/plonk/assignment.hpp
index df9e40e..a73d5d2 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment.hpp
@@ -239,15 +239,20 @@ namespace nil {
                 if (this->constant_column_size(const_column) > start_row_index) {
                     used_constants.resize(this->constant_column_size(const_column) - start_row_index, false);
                     const auto &immutable_copy_constraints = bp.copy_constraints();
-                    auto var_check = [const_column, start_row_index](const var &variable) -> bool {
+                    auto var_check = [const_column](const var &variable) -> bool {
                         return variable.type == var::column_type::constant &&
-                                variable.index == const_column &&
-                                variable.rotation >= start_row_index;
+                                variable.index == const_column;
+                    };
+                    auto mark_used = [&used_constants, start_row_index](std::int64_t row) {
+                        const std::int64_t offset = row - std::int64_t(start_row_index);
+                        if (offset >= 0 && offset < std::int64_t(used_constants.size())) {
+                            used_constants[offset] = true;
+                        }
                     };
                     for (const auto &constraint : immutable_copy_constraints) {
                         for (const auto variable : {&(constraint.first), &(constraint.second)}) {
                             if (var_check(*variable)) {
-                                used_constants[variable->rotation - start_row_index] = true;
+                                mark_used(variable->rotation);
                             }
                         }
                     }
@@ -265,10 +270,10 @@ namespace nil {
                             visitor.visit(constraint);
                         }
                         for (const auto &variable : variable_set) {
-                            for (std::size_t row = start_row_index - 1;
+                            for (std::size_t row = 0;
                                  row < this->selector_column_size(gate.selector_index); row++) {
                                 if (this->selector(gate.selector_index, row) == value_type::one()) {
-                                    used_constants[row + variable.rotation - start_row_index] = true;
+                                    mark_used(std::int64_t(row) + variable.rotation);
                                 }
                             }
                         }
@@ -289,10 +294,10 @@ namespace nil {
                             }
                         }
                         for (const auto &variable : variable_set) {
-                            for (std::size_t row = start_row_index - 1;
+                            for (std::size_t row = 0;
                                  row < this->selector_column_size(gate.tag_index); row++) {
                                 if (this->selector(gate.tag_index, row) == BlueprintFieldType::value_type::one()) {
-                                    used_constants[row + variable.rotation - start_row_index] = true;
+                                    mark_used(std::int64_t(row) + variable.rotation);
                                 }
                             }
                         }
-- 
2.43.0


From 76d8fbb1d44544ce3dfee5a3709d5f7ce7a9138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:58 +0000
Subject: [PATCH 17/74] fix: allow any rotation in gate identifiers

The values for rotations were kept in arrays of three elements, indexed by
rotation + 1 without a check, so a rotation outside of -1..1 read past the end.
---
 include/nil/blueprint/gate_id.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/nil/blueprint/gate_id.hpp b/include/nil/blueprint/gate_id.hpp
index 763862f..0744335 100644
--- a/include/nil/blueprint/gate_id.hpp
+++ b/include/nil/blueprint/gate_id.hpp
@@ -25,6 +25,7 @@
 #ifndef CRYPTO3_BLUEPRINT_GATE_ID_HPP
 #define CRYPTO3_BLUEPRINT_GATE_ID_HPP
 
+#include <map>
 #include <vector>
 #include <functional>
 #include <string>
@@ -58,9 +59,12 @@ namespace nil {
             nil::crypto3::random::algebraic_engine<BlueprintFieldType> random_engine =
                 nil::crypto3::random::algebraic_engine<BlueprintFieldType>(dev);
 
-            std::array<std::array<std::vector<value_type>, 3>, 2> witnesses;
-            std::array<std::array<std::vector<value_type>, 3>, 2> constants;
-            std::array<std::array<std::vector<value_type>, 3>, 2> selectors;
+            // Values for every point, indexed by rotation and column.
+            using values_container = std::array<std::map<std::int32_t, std::vector<value_type>>, 2>;
+
+            values_container witnesses;
+            values_container constants;
+            values_container selectors;
             // Used to separate constraints from each other in ids.
             std::vector<value_type> constraint_mults;
             // Used to separate lookup variables from each other in ids.
@@ -104,10 +108,10 @@ namespace nil {
             }
 
             inline const value_type& get_value_helper(
-                    std::array<std::array<std::vector<value_type>, 3>, 2> &container,
-                    std::size_t point, std::size_t index, std::size_t rotation) {
+                    values_container &container,
+                    std::size_t point, std::size_t index, std::int32_t rotation) {
                 BOOST_ASSERT_MSG(point == 0 || point == 1, "Point must be either 0 or 1.");
-                return get_power_helper(container[point][rotation + 1], index);
+                return get_power_helper(container[point][rotation], index);
             }
 
         public:
@@ -117,15 +121,15 @@ namespace nil {
                 return instance;
             }
 
-            const value_type& get_witness(std::size_t point, std::size_t index, std::size_t rotation) {
+            const value_type& get_witness(std::size_t point, std::size_t index, std::int32_t rotation) {
                 return get_value_helper(witnesses, point, index, rotation);
             }
 
-            const value_type& get_constant(std::size_t point, std::size_t index, std::size_t rotation) {
+            const value_type& get_constant(std::size_t point, std::size_t index, std::int32_t rotation) {
                 return get_value_helper(constants, point, index, rotation);
             }
 
-            const value_type& get_selector(std::size_t point, std::size_t index, std::size_t rotation) {
+            const value_type& get_selector(std::size_t point, std::size_t index, std::int32_t rotation) {
                 return get_value_helper(selectors, point, index, rotation);
             }
 
-- 
2.43.0


From 697f780dee3e1e8d73450b32c50e3965ce995b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:58 +0000
Subject: [PATCH 18/74] fix: give a lone constraint the same gate identifier as
 a list of one

---
 include/nil/blueprint/gate_id.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nil/blueprint/gate_id.hpp b/include/nil/blueprint/gate_id.hpp
index 0744335..80e8c16 100644
--- a/include/nil/blueprint/gate_id.hpp
+++ b/include/nil/blueprint/gate_id.hpp
@@ -234,8 +234,8 @@ namespace nil {
 
             gate_id(const constraint_type constraint) : selector_index(0) {
                 auto value_pair = eval_constraint(constraint);
-                value_1 = value_pair.first;
-                value_2 = value_pair.second;
+                value_1 = values.get_power(0) * value_pair.first;
+                value_2 = values.get_power(0) * value_pair.second;
             }
 
             gate_id(const std::initializer_list<constraint_type> &&constraints) : selector_index(0) {
@@ -341,8 +341,8 @@ namespace nil {
 
             lookup_gate_id(const constraint_type &constraint) : tag_index(0) {
                 auto value_pair = eval_constraint(constraint);
-                value_1 = value_pair.first;
-                value_2 = value_pair.second;
+                value_1 = values.get_power(0) * value_pair.first;
+                value_2 = values.get_power(0) * value_pair.second;
             }
 
             lookup_gate_id(const std::initializer_list<constraint_type> &&constraints) : tag_index(0) {
-- 
2.43.0


From b40d96934f4808eb6ebba401a35761fd4fed6edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:58 +0000
Subject: [PATCH 19/74] fix: tell lookups of zeros in different tables apart

The identifier of such a lookup constraint was zero for every table, so the
second one shared the selector of the first and was never checked.
---
 include/nil/blueprint/gate_id.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/gate_id.hpp b/include/nil/blueprint/gate_id.hpp
index 80e8c16..50ba9f9 100644
--- a/include/nil/blueprint/gate_id.hpp
+++ b/include/nil/blueprint/gate_id.hpp
@@ -292,7 +292,8 @@ namespace nil {
             std::size_t tag_index;
         public:
             std::pair<value_type, value_type> eval_constraint(const constraint_type& constraint) const {
-                value_type value_1 = BlueprintFieldType::value_type::zero(), value_2 = BlueprintFieldType::value_type::zero();
+                // Starting from one separates the tables even if all of the inputs evaluate to zero.
+                value_type value_1 = BlueprintFieldType::value_type::one(), value_2 = BlueprintFieldType::value_type::one();
                 for (std::size_t i = 0; i < constraint.lookup_input.size(); i++) {
                     nil::crypto3::math::expression_evaluator<var> evaluator_1(
                         constraint.lookup_input[i],
-- 
2.43.0


From e8b2b4afc6c6d32fa9331d64eda6482f02d1195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:26 +0000
Subject: [PATCH 20/74] fix: announce the real dimensions of the opcode table

---
 include/nil/blueprint/lookup_library.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/lookup_library.hpp b/include/nil/blueprint/lookup_library.hpp
index 755b340..48acbb0 100644
--- a/include/nil/blueprint/lookup_library.hpp
+++ b/include/nil/blueprint/lookup_library.hpp
@@ -134,8 +134,8 @@ namespace nil {
                     this->_table[1].push_back(0);
                     this->_table[2].push_back(0);
                 }
-                virtual std::size_t get_columns_number(){ return 1; }
-                virtual std::size_t get_rows_number(){ return 256; }
+                virtual std::size_t get_columns_number(){ return 3; }
+                virtual std::size_t get_rows_number(){ return opcodes_num + 1; }
             };
 
             class binary_xor_table_type : public lookup_table_definition{
-- 
2.43.0


From 5437b68e85d8d62dbf7b3ec3ae886d611e5839e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:11 +0000
Subject: [PATCH 21/74] fix: tell constant columns apart in the connectedness
 check

All constants of a row had one address, so two unrelated cells constrained by
constants from different columns of the same row counted as connected.
---
 include/nil/blueprint/utils/connectedness_check.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nil/blueprint/utils/connectedness_check.hpp b/include/nil/blueprint/utils/connectedness_check.hpp
index ed7567c..f78a2f2 100644
--- a/include/nil/blueprint/utils/connectedness_check.hpp
+++ b/include/nil/blueprint/utils/connectedness_check.hpp
@@ -63,8 +63,8 @@ namespace nil {
                 } else if (variable.type == var::column_type::witness) {
                     return (variable.rotation - start_row_index) * row_size + variable.index;
                 } else {
-                    // Constant
-                    return (variable.rotation - start_row_index) * row_size + row_size - 1;
+                    // Constant, columns are counted from the end of the row
+                    return (variable.rotation - start_row_index) * row_size + row_size - 1 - variable.index;
                 }
             };
 
@@ -215,7 +215,7 @@ namespace nil {
                         return (row - start_row_index + variable.rotation) * row_size + variable.index;
                     } else {
                         // Constant
-                        return (row - start_row_index + variable.rotation) * row_size + row_size - 1;
+                        return (row - start_row_index + variable.rotation) * row_size + row_size - 1 - variable.index;
                     }
                 };
                 const std::size_t end_row_index = start_row_index + rows_amount;
@@ -308,7 +308,7 @@ namespace nil {
                     return (row - start_row_index + variable.rotation) * row_size + variable.index;
                 } else {
                     // Constant
-                    return (row - start_row_index + variable.rotation) * row_size + row_size - 1;
+                    return (row - start_row_index + variable.rotation) * row_size + row_size - 1 - variable.index;
                 }
             };
             const std::size_t end_row_index = start_row_index + rows_amount;
-- 
2.43.0


From 2076ee9071e7889f16381901aa34b195910f38e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:03 +0000
Subject: [PATCH 22/74] fix: use the columns given to the exponentiation
 component

---
 .../components/algebra/fields/plonk/exponentiation.hpp      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp b/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp
index 35584b4..d4c2f84 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp
@@ -230,7 +230,7 @@ namespace nil {
 
                         // we use first empty row to unify first row gate with others
                         assignment.witness(component.W(1), start_row_index) = 0u;
-                        assignment.witness(component.intermediate_start + component.intermediate_results_per_row - 1, start_row_index) = 1u;
+                        assignment.witness(component.W(component.intermediate_start + component.intermediate_results_per_row - 1), start_row_index) = 1u;
                         std::size_t start_row_padded = start_row_index + 1;
 
                         std::size_t current_bit = 0;
@@ -325,8 +325,8 @@ namespace nil {
 
                        	using var = typename plonk_exponentiation<BlueprintFieldType, ExponentSize>::var;
 
-                        var zero(component.W(0), start_row_index, false, var::column_type::constant);
-                        var one(component.W(0), start_row_index + 1, false, var::column_type::constant);
+                        var zero(component.C(0), start_row_index, false, var::column_type::constant);
+                        var one(component.C(0), start_row_index + 1, false, var::column_type::constant);
 
                         for (std::size_t row = start_row_index + 1; row < start_row_index + component.rows_amount; row++) {
                             bp.add_copy_constraint({{component.W(0), static_cast<int>(row), false}, instance_input.base});
-- 
2.43.0


From d7c71a552b68fc308983efcf8a16593cfa34e57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:03 +0000
Subject: [PATCH 23/74] fix: read the square root from the column given to the
 component

---
 include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp b/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp
index e0e2faa..f74a820 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp
@@ -318,7 +318,7 @@ namespace nil {
                 }
 
                 auto mul_instance = mul_component({component.W(0), component.W(1), component.W(2)}, {}, {});
-                var x(0, row, false);
+                var x(component.W(0), row, false);
                 var x_squared = generate_assignments(mul_instance, assignment, {x, x}, row).output;
                 row += mul_instance.rows_amount;
 
-- 
2.43.0


From 008e142b23548a585833a3606980017bc69d649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:50 +0000
Subject: [PATCH 24/74] fix: announce the constant column needed by bit
 composition and decomposition

Both components place a zero in their constant column, but the manifest said that none is required.
Without one the constructor succeeded and the generation read past the end of the column list.
---
 .../fields/plonk/non_native/detail/bit_builder_component.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/detail/bit_builder_component.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/detail/bit_builder_component.hpp
index 71ca02a..751412d 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/detail/bit_builder_component.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/detail/bit_builder_component.hpp
@@ -196,7 +196,7 @@ namespace nil {
                         manifest_type manifest = manifest_type(
                             std::shared_ptr<manifest_param>(new manifest_range_param(
                                 3, std::max<std::size_t>(4, bits_amount / 3 + 2))),
-                            false
+                            true
                         );
                         return manifest;
                     }
-- 
2.43.0


From 5331b67a084290026863b1bd2e221707f0428886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:56 +0000
Subject: [PATCH 25/74] fix: keep the bits of a decomposition without circuit
 in the columns there are

Nine bits were placed in a row whatever the number of witness columns, so with fewer columns they overwrote each other.
---
 .../fields/plonk/non_native/bit_decomposition.hpp   | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp
index 544ad56..f4cbde4 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp
@@ -99,12 +99,13 @@ namespace nil {
                     return component_type::get_rows_amount(witness_amount, bits_amount, true);
                 }
 
-                constexpr static std::size_t get_empty_rows_amount(std::size_t bits_amount, bit_composition_mode mode) {
-                    return bits_amount / 9 + (bits_amount % 9 != 0);
+                constexpr static std::size_t get_empty_rows_amount(std::size_t witness_amount,
+                                                                   std::size_t bits_amount, bit_composition_mode mode) {
+                    return bits_amount / witness_amount + (bits_amount % witness_amount != 0);
                 }
 
                 const bit_composition_mode mode;
-                const std::size_t empty_rows_amount = get_empty_rows_amount(this->bits_amount, this->mode);
+                const std::size_t empty_rows_amount = get_empty_rows_amount(this->witness_amount(), this->bits_amount, this->mode);
                 const std::string component_name = "bit_decomposition";
 
                 struct input_type {
@@ -134,8 +135,9 @@ namespace nil {
                     result_type(const bit_decomposition &component, std::uint32_t start_row_index, bool skip) {
                         output.resize(component.bits_amount);
 
+                        const std::size_t row_size = component.witness_amount();
                         for (std::size_t i = 0; i < component.bits_amount; i++) {
-                            output[i] = var(component.W(i % 9), start_row_index + i / 9, false);
+                            output[i] = var(component.W(i % row_size), start_row_index + i / row_size, false);
                         }
                     }
 
@@ -253,8 +255,9 @@ namespace nil {
 
                 std::vector<bool> bits = component_type::calculate(input_data, component.bits_amount, component.mode);
 
+                const std::size_t row_size = component.witness_amount();
                 for (std::size_t i = 0; i < component.bits_amount; i++) {
-                    assignment.witness(component.W(i % 9), start_row_index + i / 9) = value_type(bits[i] ? 1 : 0);
+                    assignment.witness(component.W(i % row_size), start_row_index + i / row_size) = value_type(bits[i] ? 1 : 0);
                 }
 
                 return typename plonk_bit_decomposition<BlueprintFieldType>::result_type(
-- 
2.43.0


From 1dff2b52bad1512ed94f159df4e05ea3e685d599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:14 +0000
Subject: [PATCH 26/74] fix: bound the remainder of the division from both
 sides

The remainder was only required to be at most the divisor, with any negative value in reach allowed.
A prover could therefore claim a quotient that is too large or one too small.
The remainder is now range checked and has to be strictly less than the divisor.
---
 .../plonk/non_native/division_remainder.hpp   | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp
index c940d3d..328f37f 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp
@@ -62,7 +62,7 @@ namespace nil {
                 using value_type = typename BlueprintFieldType::value_type;
 
                 static std::size_t range_check_amount_internal(bool check_inputs) {
-                    return 2 + 2 * check_inputs;
+                    return 3 + 2 * check_inputs;
                 }
 
                 static bool needs_bonus_row_internal(std::size_t witness_amount) {
@@ -262,7 +262,8 @@ namespace nil {
                 std::vector<constraint_type> constraints;
                 constraint_type division_constraint = x - y * q - r;
                 constraints.push_back(division_constraint);
-                constraint_type y_minus_r_constraint = y - r - y_minus_r;
+                // r < y, so it is y - r - 1 that has to be in range
+                constraint_type y_minus_r_constraint = y - r - 1 - y_minus_r;
                 constraints.push_back(y_minus_r_constraint);
 
                 return bp.add_gate(constraints);
@@ -314,6 +315,7 @@ namespace nil {
                 std::pair<std::size_t, std::size_t>
                     x_address = component.get_var_address(var_address::X, start_row_index),
                     y_address = component.get_var_address(var_address::Y, start_row_index),
+                    r_address = component.get_var_address(var_address::R_, start_row_index),
                     q_address = component.get_var_address(var_address::Q, start_row_index),
                     y_minus_r_address = component.get_var_address(var_address::Y_MINUS_R, start_row_index);
 
@@ -330,14 +332,18 @@ namespace nil {
                                  {var(component.W(q_address.second), q_address.first, false)}, row);
                 row += component.range_checks[1].rows_amount;
 
+                generate_circuit(component.range_checks[2], bp, assignment,
+                                 {var(component.W(r_address.second), r_address.first, false)}, row);
+                row += component.range_checks[2].rows_amount;
+
                 if (component.check_inputs) {
-                    generate_circuit(component.range_checks[2], bp, assignment,
+                    generate_circuit(component.range_checks[3], bp, assignment,
                                      {var(component.W(x_address.second), x_address.first, false)}, row);
-                    row += component.range_checks[2].rows_amount;
+                    row += component.range_checks[3].rows_amount;
 
-                    generate_circuit(component.range_checks[3], bp, assignment,
+                    generate_circuit(component.range_checks[4], bp, assignment,
                                      {var(component.W(y_address.second), y_address.first, false)}, row);
-                    row += component.range_checks[3].rows_amount;
+                    row += component.range_checks[4].rows_amount;
                 }
 
                 BOOST_ASSERT(row == start_row_index + component.rows_amount);
@@ -386,7 +392,7 @@ namespace nil {
                 assignment.witness(component.W(y_address.second), y_address.first) = y;
                 assignment.witness(component.W(r_address.second), r_address.first) = r;
                 assignment.witness(component.W(q_address.second), q_address.first) = q;
-                assignment.witness(component.W(y_minus_r_address.second), y_minus_r_address.first) = y - r;
+                assignment.witness(component.W(y_minus_r_address.second), y_minus_r_address.first) = y - r - 1;
                 row += 1 + component.needs_bonus_row;
 
                 generate_assignments(component.range_checks[0], assignment,
@@ -397,14 +403,18 @@ namespace nil {
                                      {var(component.W(q_address.second), q_address.first, false)}, row);
                 row += component.range_checks[1].rows_amount;
 
+                generate_assignments(component.range_checks[2], assignment,
+                                     {var(component.W(r_address.second), r_address.first, false)}, row);
+                row += component.range_checks[2].rows_amount;
+
                 if (component.check_inputs) {
-                    generate_assignments(component.range_checks[2], assignment,
+                    generate_assignments(component.range_checks[3], assignment,
                                          {var(component.W(x_address.second), x_address.first, false)}, row);
-                    row += component.range_checks[2].rows_amount;
+                    row += component.range_checks[3].rows_amount;
 
-                    generate_assignments(component.range_checks[3], assignment,
+                    generate_assignments(component.range_checks[4], assignment,
                                          {var(component.W(y_address.second), y_address.first, false)}, row);
-                    row += component.range_checks[3].rows_amount;
+                    row += component.range_checks[4].rows_amount;
                 }
 
                 BOOST_ASSERT(row == start_row_index + component.rows_amount);
-- 
2.43.0


From 67777feffe42f205311d67bfef1b617ce7a8e7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:57 +0000
Subject: [PATCH 27/74] fix: announce the constant column needed by the
 comparisons

Both components place a zero in their constant column, but the manifest said that none is required.
---
 .../algebra/fields/plonk/non_native/comparison_checked.hpp      | 2 +-
 .../algebra/fields/plonk/non_native/comparison_flag.hpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
index 2fa2b6a..cf18aa4 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
@@ -174,7 +174,7 @@ namespace nil {
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(
                                 3, std::max<std::size_t>(4, (bits_amount + chunk_size - 1) / chunk_size + 1))),
-                        false
+                        true
                     );
                     return manifest;
                 }
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
index 44dee4f..ff2f76d 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
@@ -193,7 +193,7 @@ namespace nil {
                     static manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(3, std::max<std::size_t>(4, (bits_amount + 28 - 1) / 28 + 1))),
-                        false
+                        true
                     );
                     return manifest;
                 }
-- 
2.43.0


From 524881eef7fc5bb9453c8156b55216ba55610370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:54 +0000
Subject: [PATCH 28/74] fix: bound the first chunks of both operands of the
 comparison flag

With an even number of columns and a single chunk in the last place of the gate,
the bound was put on an unused column and on the chunk of the first operand only.
---
 .../algebra/fields/plonk/non_native/comparison_flag.hpp   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
index ff2f76d..bd5e010 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
@@ -769,12 +769,16 @@ namespace nil {
                     // we don't check that x and y fit into 2^{bits_amount}.
                     std::vector<constraint_type> first_chunk_range_constraints;
 
-                    var size_constraint_var = var(component.W(3 + 2 * component.padding_size), 0, true);
+                    // The last chunk pair of a gate instance is in the first two columns.
+                    const std::size_t first_chunk_column =
+                        component.padding_size == component.comparisons_per_gate_instance - 1 ?
+                            0 : 3 + 2 * component.padding_size;
+                    var size_constraint_var = var(component.W(first_chunk_column), 0, true);
                     constraint_type first_chunk_range_constraint = generate_chunk_size_constraint(
                         size_constraint_var, component.bits_amount % component.chunk_size);
                     first_chunk_range_constraints.push_back(first_chunk_range_constraint);
 
-                    size_constraint_var = var(component.W(3 + 2 * component.padding_size + 1), 0, true);
+                    size_constraint_var = var(component.W(first_chunk_column + 1), 0, true);
                     first_chunk_range_constraint =
                         generate_chunk_size_constraint(size_constraint_var,
                                                        component.bits_amount % component.chunk_size);
-- 
2.43.0


From db608356d31276dfeead09d2f97f334066f832c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:16 +0000
Subject: [PATCH 29/74] fix: keep the definition of a dynamic table that is
 reserved again

---
 include/nil/blueprint/lookup_library.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/blueprint/lookup_library.hpp b/include/nil/blueprint/lookup_library.hpp
index 48acbb0..5e6b3bf 100644
--- a/include/nil/blueprint/lookup_library.hpp
+++ b/include/nil/blueprint/lookup_library.hpp
@@ -357,6 +357,9 @@ namespace nil {
 
             void register_dynamic_table(std::string table_name){
                 BOOST_ASSERT(tables.find(table_name) == tables.end());
+                if (dynamic_tables.find(table_name) != dynamic_tables.end()) {
+                    return;
+                }
                 dynamic_tables[table_name] = std::shared_ptr<dynamic_table_definition>(new dynamic_table_definition(table_name));
             }
 
-- 
2.43.0


From 0e62f0acdc99ccd4921162fdaa51d49c20b2327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:44 +0000
Subject: [PATCH 30/74] fix: pass dynamic tables and gates on chosen selectors
 through the circuit proxy

---
 .../nil/blueprint/blueprint/plonk/circuit.hpp |  2 +-
 .../blueprint/plonk/circuit_proxy.hpp         | 39 +++++++++++++++++++
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/circuit.hpp b/include/nil/blueprint/blueprint/plonk/circuit.hpp
index 999bf92..21cbbb9 100644
--- a/include/nil/blueprint/blueprint/plonk/circuit.hpp
+++ b/include/nil/blueprint/blueprint/plonk/circuit.hpp
@@ -201,7 +201,7 @@ namespace nil {
                 _lookup_library.reserve_dynamic_table(name);
             }
 
-            std::shared_ptr<crypto3::zk::snark::dynamic_table_definition<BlueprintFieldType>> get_dynamic_table_definition(std::string name){
+            virtual std::shared_ptr<crypto3::zk::snark::dynamic_table_definition<BlueprintFieldType>> get_dynamic_table_definition(std::string name){
                 return _lookup_library.get_dynamic_table_definition(name);
             }
 
diff --git a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
index 5373578..67e46b5 100644
--- a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
@@ -46,6 +46,7 @@ namespace nil {
             using constraint_type = crypto3::zk::snark::plonk_constraint<BlueprintFieldType>;
             using lookup_constraint_type = crypto3::zk::snark::plonk_lookup_constraint<BlueprintFieldType>;
             using lookup_table_definition = typename nil::crypto3::zk::snark::lookup_table_definition<BlueprintFieldType>;
+            using dynamic_table_definition = typename nil::crypto3::zk::snark::dynamic_table_definition<BlueprintFieldType>;
 
             std::shared_ptr<circuit<ArithmetizationType>> circuit_ptr;
             std::uint32_t id;
@@ -169,6 +170,18 @@ namespace nil {
                 return selector_index;
             }
 
+            std::size_t add_gate(std::size_t selector_id, const std::vector<constraint_type> &args) override {
+                circuit_ptr->add_gate(selector_id, args);
+                used_gates.insert(circuit_ptr->gates().size() - 1);
+                return selector_id;
+            }
+
+            std::size_t add_lookup_gate(std::size_t selector_id, const std::vector<lookup_constraint_type> &args) override {
+                circuit_ptr->add_lookup_gate(selector_id, args);
+                used_lookup_gates.insert(circuit_ptr->lookup_gates().size() - 1);
+                return selector_id;
+            }
+
             const typename ArithmetizationType::lookup_table_type &lookup_table(std::size_t table_id) const override {
                 return circuit_ptr->lookup_table(table_id);
             }
@@ -187,6 +200,28 @@ namespace nil {
                 used_lookup_tables.insert(idx);
             }
 
+            std::size_t get_dynamic_lookup_table_selector() override {
+                return circuit_ptr->get_dynamic_lookup_table_selector();
+            }
+
+            void register_dynamic_table(std::string name) override {
+                circuit_ptr->register_dynamic_table(name);
+            }
+
+            void reserve_dynamic_table(std::string name) override {
+                circuit_ptr->reserve_dynamic_table(name);
+                const auto idx = circuit_ptr->get_reserved_indices().at(name) - 1;
+                used_lookup_tables.insert(idx);
+            }
+
+            std::shared_ptr<dynamic_table_definition> get_dynamic_table_definition(std::string name) override {
+                return circuit_ptr->get_dynamic_table_definition(name);
+            }
+
+            void define_dynamic_table(std::string name, const crypto3::zk::snark::plonk_lookup_table<BlueprintFieldType> &table) override {
+                circuit_ptr->define_dynamic_table(name, table);
+            }
+
             const typename lookup_library<BlueprintFieldType>::left_reserved_type
                     &get_reserved_indices() const override {
                 return circuit_ptr->get_reserved_indices();
@@ -201,6 +236,10 @@ namespace nil {
                 return circuit_ptr->get_reserved_tables();
             }
 
+            const std::map<std::string, std::shared_ptr<dynamic_table_definition>> &get_reserved_dynamic_tables() const override {
+                return circuit_ptr->get_reserved_dynamic_tables();
+            }
+
             void add_copy_constraint(const crypto3::zk::snark::plonk_copy_constraint<BlueprintFieldType> &copy_constraint) override {
                 circuit_ptr->add_copy_constraint(copy_constraint);
                 if (circuit_ptr->copy_constraints().size() > 0) {
-- 
2.43.0


From 4abe57ec52a0ba0f32d8e91e4987f4ac2029ad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:07 +0000
Subject: [PATCH 31/74] fix: do not count a dropped copy constraint as used

---
 include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
index 67e46b5..5c7d334 100644
--- a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
@@ -241,8 +241,9 @@ namespace nil {
             }
 
             void add_copy_constraint(const crypto3::zk::snark::plonk_copy_constraint<BlueprintFieldType> &copy_constraint) override {
+                const std::size_t copy_constraints_size = circuit_ptr->copy_constraints().size();
                 circuit_ptr->add_copy_constraint(copy_constraint);
-                if (circuit_ptr->copy_constraints().size() > 0) {
+                if (circuit_ptr->copy_constraints().size() > copy_constraints_size) {
                     used_copy_constraints.insert(circuit_ptr->copy_constraints().size() - 1);
                 }
             }
-- 
2.43.0


From 55b31e919e973a21c676f4ba83b080b80c2a39eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:34 +0000
Subject: [PATCH 32/74] fix: evaluate the gates of a proxy on the table behind
 it

---
 include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
index 0f26a65..2a2a3c1 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
@@ -455,7 +455,9 @@ namespace nil {
 
             const auto& selector_rows = assignments.get_used_selector_rows();
 
-            return is_satisfied(bp, assignments, used_gates, used_lookup_gates, used_copy_constraints, selector_rows);
+            // gates are evaluated on the underlying table, the proxy itself does not hold any columns
+            return is_satisfied(bp, assignments.get(), used_gates, used_lookup_gates, {}, selector_rows) &&
+                   is_satisfied(bp, assignments, {}, {}, used_copy_constraints, selector_rows);
         }
     }    // namespace blueprint
 }    // namespace nil
-- 
2.43.0


From 1316cd413ee64aeb450e283341ba6b045c1b9004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:58 +0000
Subject: [PATCH 33/74] fix: export the last selector column of a proxy

---
 include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
index 2a2a3c1..31b624d 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
@@ -408,7 +408,7 @@ namespace nil {
                     }
                     os << "| ";
                     // Selectors only need a single bit, so we do not renew the size here
-                    for (std::uint32_t j = 0; j < selectors_size - 1; j++) {
+                    for (std::uint32_t j = 0; j < selectors_size; j++) {
                         os << (i < assignment_ptr->selector_column_size(j) ?
                                assignment_ptr->selector(j, i) : 0).data << " ";
                     }
-- 
2.43.0


From 325ca4b286aa13ddfa23acaacf7222b8793fdeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:35 +0000
Subject: [PATCH 34/74] fix: accept powers of four as constant exponents

The number of base-four digits of the exponent was computed one too small
for powers of four, so the component could not be constructed for them.
---
 .../components/systems/snark/plonk/flexible/constant_pow.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
index cdee480..cf167a2 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
@@ -45,7 +45,7 @@ namespace nil {
             std::size_t integral_type_log2(typename BlueprintFieldType::integral_type pow){
                 std::size_t result = 0;
                 typename BlueprintFieldType::integral_type a = 1;
-                while( a < pow ){
+                while( a <= pow ){
                     a *= 2;
                     result++;
                 }
-- 
2.43.0


From a294c4552afbb2ce4cfbdf82022dbdff867d353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:35 +0000
Subject: [PATCH 35/74] fix: return the last power when it fills its row

The result was taken from the column of the initial value when the number
of digits of the exponent is a multiple of the digits per row.
---
 .../components/systems/snark/plonk/flexible/constant_pow.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
index cf167a2..d49920d 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
@@ -155,7 +155,7 @@ namespace nil {
                     result_type(const flexible_constant_pow &component, std::size_t start_row_index) {
                         // TODO define output var
                         std::size_t witness_amount = component.witness_amount();
-                        std::size_t last_column_id = component.four_chunks.size()%(witness_amount - 2) + 1;
+                        std::size_t last_column_id = (component.four_chunks.size() - 1)%(witness_amount - 2) + 2;
                         y = var(component.W(last_column_id), start_row_index + component.rows_amount-1, false);
                     }
 
-- 
2.43.0


From 46862489a6304f89049675f11c4d188c275db1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:35 +0000
Subject: [PATCH 36/74] fix: constrain the initial value of a constant power to
 one

Nothing fixed the value the exponentiation starts from, so any result was
accepted. The constraint makes the gate of the first row its own; the other
rows share gates whenever their digits are equal, not only when adjacent.
---
 .../snark/plonk/flexible/constant_pow.hpp     | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
index d49920d..33b639e 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
@@ -27,6 +27,10 @@
 #ifndef CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_FLEXIBLE_constant_pow_HPP
 #define CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_FLEXIBLE_constant_pow_HPP
 
+#include <algorithm>
+#include <set>
+#include <vector>
+
 #include <nil/crypto3/zk/snark/arithmetization/plonk/constraint_system.hpp>
 
 #include <nil/blueprint/blueprint/plonk/assignment.hpp>
@@ -94,19 +98,14 @@ namespace nil {
                         // related to pow
                         std::size_t one_row_cells = _witness_amount-2;
                         std::vector<std::size_t> four_chunks = integral_type_four_chunks<BlueprintFieldType>(_pow);
-                        std::vector<typename BlueprintFieldType::integral_type> larger_chunks;
-                        std::size_t cur = 0;
-                        for(std::size_t i = 0; i < four_chunks.size(); i++){
-                            if ( i%one_row_cells == 0 ){
-                                larger_chunks.push_back(0);
-                                cur++;
-                            }
-                            larger_chunks[cur-1] *= 4;
-                            larger_chunks[cur-1] += four_chunks[i];
+                        // the first row also fixes the initial value, equal chunks of the other rows share a gate
+                        std::set<std::vector<std::size_t>> other_rows;
+                        for(std::size_t i = one_row_cells; i < four_chunks.size(); i += one_row_cells){
+                            other_rows.emplace(
+                                four_chunks.begin() + i,
+                                four_chunks.begin() + std::min(i + one_row_cells, four_chunks.size()));
                         }
-                        std::vector<typename BlueprintFieldType::integral_type> unique_chunks;
-                        std::unique_copy(larger_chunks.begin(), larger_chunks.end(), std::back_inserter(unique_chunks));
-                        return unique_chunks.size();
+                        return 1 + other_rows.size();
                     }
                 };
 
@@ -260,6 +259,9 @@ namespace nil {
                 for( std::size_t row = 0; row < component.rows_amount; row++ ) {
                     std::vector<constraint_type> constraints;
                     var x_var = var(component.W(0),0,true);
+                    if (row == 0) {
+                        constraints.push_back(var(component.W(1), 0, true) - 1);
+                    }
 
                     for (std::size_t cell = 2; cell < witness_amount; cell++ ) {
                         if (cur < four_chunks.size()) {
-- 
2.43.0


From 07dde6b5dbe31ea0d47df4838f295dc1d579e089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:55 +0000
Subject: [PATCH 37/74] fix: announce the constant column of the position
 component

It keeps omega in a constant column on each of its rows.
---
 .../components/systems/snark/plonk/flexible/x_index.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
index 095df0e..c6cdfbd 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
@@ -77,7 +77,7 @@ namespace nil {
                 static manifest_type get_manifest() {
                     static manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(new manifest_range_param(3, 300, 3)),
-                        false
+                        true
                     );
                     return manifest;
                 }
-- 
2.43.0


From 62e047f66d292454928af8532bde71fe1455e69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:55 +0000
Subject: [PATCH 38/74] fix: reserve a cell for the computed bit of a position

The rows were counted for the given bits only. When they fill their last row
there was no place for the last step, and the point was not compared at all.
---
 .../components/systems/snark/plonk/flexible/x_index.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
index c6cdfbd..e38e83a 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
@@ -84,7 +84,7 @@ namespace nil {
 
                 constexpr static std::size_t get_rows_amount(std::size_t witness_amount,
                                                              std::size_t n) {
-                    std::size_t cells = 2 * n;
+                    std::size_t cells = 2 * (n + 1); // the given bits and the computed one
                     std::size_t one_row_cells = ((witness_amount-1) / 2)*2;
                     return cells%one_row_cells == 0? cells/one_row_cells: cells/one_row_cells + 1;
                 }
-- 
2.43.0


From 1ca67dd08e6e18592d8627617653cf4d9e5b8b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:30:03 +0000
Subject: [PATCH 39/74] fix: constrain the initial value and the computed bit
 of a position

The first factor was free and the bit was not required to be one, so both
values of the bit were accepted for the same point.
---
 .../systems/snark/plonk/flexible/x_index.hpp       | 14 +++++++++-----
 .../systems/snark/plonk/verifier/verifier.hpp      |  5 +++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
index e38e83a..034aae1 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
@@ -89,7 +89,7 @@ namespace nil {
                     return cells%one_row_cells == 0? cells/one_row_cells: cells/one_row_cells + 1;
                 }
 
-                constexpr static const std::size_t gates_amount = 1;
+                constexpr static const std::size_t gates_amount = 2;
                 const std::size_t rows_amount = get_rows_amount(this->witness_amount(), n);
 
                 struct input_type {
@@ -208,7 +208,7 @@ namespace nil {
 	        }
 
             template<typename BlueprintFieldType>
-            std::size_t generate_gates(
+            std::vector<std::size_t> generate_gates(
                 const plonk_flexible_x_index<BlueprintFieldType> &component,
                 circuit<crypto3::zk::snark::plonk_constraint_system<BlueprintFieldType>> &bp,
                 assignment<crypto3::zk::snark::plonk_constraint_system<BlueprintFieldType>>
@@ -230,7 +230,10 @@ namespace nil {
                     var next = var(component.W(block*2 + 2), 0, true);
                     constraints.push_back( next - prev * prev *(b + omega - omega * b));
                 }
-                return bp.add_gate(constraints);
+                var first = var(component.W(0), 0, true);
+                var b0 = var(component.W(1), 0, true);
+
+                return {bp.add_gate(constraints), bp.add_gate({first - 1, b0 * (b0 - 1)})};
             }
 
             template<typename BlueprintFieldType>
@@ -295,9 +298,10 @@ namespace nil {
 
                 using component_type = plonk_flexible_x_index<BlueprintFieldType>;
 
-                std::size_t selector_index = generate_gates(component, bp, assignment, instance_input);
+                std::vector<std::size_t> selector_indices = generate_gates(component, bp, assignment, instance_input);
                 assignment.enable_selector(
-                    selector_index, start_row_index, start_row_index + component.rows_amount - 1);
+                    selector_indices[0], start_row_index, start_row_index + component.rows_amount - 1);
+                assignment.enable_selector(selector_indices[1], start_row_index);
                 generate_copy_constraints(component, bp, assignment, instance_input, start_row_index);
 
                 return typename component_type::result_type(component, start_row_index);
diff --git a/include/nil/blueprint/components/systems/snark/plonk/verifier/verifier.hpp b/include/nil/blueprint/components/systems/snark/plonk/verifier/verifier.hpp
index 0a9b9a2..8ffd95e 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/verifier/verifier.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/verifier/verifier.hpp
@@ -152,8 +152,9 @@ namespace nil {
                         ).get_gates_amount();
                         std::cout << "Constant component gates " << constant_pow_gates << std::endl;
                         num_gates += constant_pow_gates;
-                        std::cout << "X-index gates " << 1 << std::endl;
-                        num_gates += 1;
+                        std::size_t x_index_gates = x_index_component_type::gates_amount;
+                        std::cout << "X-index gates " << x_index_gates << std::endl;
+                        num_gates += x_index_gates;
                         std::cout << "Colinear checks component gate " << 1 << std::endl;
                         num_gates += 1;
                     }
-- 
2.43.0


From ed36d2a66d6e4866e02193d6f5363260cf4e6d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:31:02 +0000
Subject: [PATCH 40/74] fix: set omega of the position component with its
 circuit

The constant was only written while filling in a witness, so the constant
columns of a circuit without one were wrong.
---
 .../components/systems/snark/plonk/flexible/x_index.hpp       | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
index 034aae1..bc68b48 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
@@ -188,7 +188,6 @@ namespace nil {
 
                 tmp = 1;
                 for (std::size_t row = 0; row < rows_amount; row++) {
-                    assignment.constant(component.C(0), start_row_index + row) = omega;
                     assignment.witness(component.W(0), start_row_index + row) = tmp;
                     for (std::size_t block = 0; block < (witness_amount-1)/2; block++, cur++) {
                         if (cur < all_ordered_bits.size()) {
@@ -303,6 +302,9 @@ namespace nil {
                     selector_indices[0], start_row_index, start_row_index + component.rows_amount - 1);
                 assignment.enable_selector(selector_indices[1], start_row_index);
                 generate_copy_constraints(component, bp, assignment, instance_input, start_row_index);
+                for (std::size_t row = 0; row < component.rows_amount; row++) {
+                    assignment.constant(component.C(0), start_row_index + row) = component.omega;
+                }
 
                 return typename component_type::result_type(component, start_row_index);
             }
-- 
2.43.0


From f6422c5b93be10e6769436aec5a5c292c82b9f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:50 +0000
Subject: [PATCH 41/74] fix: add the gates of the later terms of a sum in a row

---
 .../systems/snark/plonk/placeholder/detail/f3_loop.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
index 21e939d..acc78d1 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
@@ -230,7 +230,7 @@ namespace nil {
                         auto constraint_ =
                             var(component.W(j), 0) - var(component.W(j - 4), 0) -
                             (var(component.W(j - 2), 0) - var(component.W(j - 1), 0)) * var(component.W(j - 3), 0);
-                        selectors.push_back(bp.add_gate({constraint_2}));
+                        selectors.push_back(bp.add_gate({constraint_}));
                     }
                 } else if (witness_amount % 4 == 2) {
                     auto constraint_2 = var(component.W(1), 0) - var(component.W(witness_amount - 3), -1) -
-- 
2.43.0


From 78996279acb8513405cd0d2006edce104454c97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:50 +0000
Subject: [PATCH 42/74] fix: leave the row above a sum of one row alone

---
 .../systems/snark/plonk/placeholder/detail/f3_loop.hpp      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
index acc78d1..4a43401 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
@@ -353,6 +353,8 @@ namespace nil {
                     }
                     r = component.rows_amount - 1;
                     for (std::size_t j = start_j; j < last_col; j = j + 4) {
+                        if (r == 0 && j == 3)
+                            continue;
                         assignment.enable_selector(selectors[(j / 4 + 1)], row + r);
                     }
                 } else if (witness_amount % 4 == 2) {
@@ -368,6 +370,8 @@ namespace nil {
                     r = component.rows_amount - 1;
                     start_j = 3 - 2 * (r % 2);
                     for (std::size_t j = start_j; j < last_col; j = j + 4) {
+                        if (r == 0 && j == 3)
+                            continue;
                         assignment.enable_selector(selectors[(j / 2 + 1)], row + r);
                     }
                 } else {
@@ -391,6 +395,8 @@ namespace nil {
                         start_j = (3 - x) + (x - 2) * (r % 4 - 1);
                     }
                     for (std::size_t j = start_j; j < last_col; j = j + 4) {
+                        if (r == 0 && j == 3)
+                            continue;
                         assignment.enable_selector(selectors[j + 1], row + r);
                     }
                 }
-- 
2.43.0


From eee20c69affddae17226ccbb4ffc7949c9dee6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:13 +0000
Subject: [PATCH 43/74] fix: announce the constant column of the gate and
 lookup argument verifiers

---
 .../systems/snark/plonk/placeholder/gate_argument_verifier.hpp  | 2 +-
 .../snark/plonk/placeholder/lookup_argument_verifier.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/gate_argument_verifier.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/gate_argument_verifier.hpp
index 77d2f16..a87143e 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/gate_argument_verifier.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/gate_argument_verifier.hpp
@@ -131,7 +131,7 @@ namespace nil {
 
                 static manifest_type get_manifest(std::vector<std::size_t> &gate_sizes_) {
                     static manifest_type manifest =
-                        manifest_type(std::shared_ptr<manifest_param>(new manifest_range_param(3, 15)), false)
+                        manifest_type(std::shared_ptr<manifest_param>(new manifest_range_param(3, 15)), true)
                             .merge_with(gate_component::get_manifest(0)); // independent of degree
                     return manifest;
                 }
diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/lookup_argument_verifier.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/lookup_argument_verifier.hpp
index 39c06d8..3b94286 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/lookup_argument_verifier.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/lookup_argument_verifier.hpp
@@ -165,7 +165,7 @@ namespace nil {
                     std::vector<std::size_t> &lookup_table_columns_numbers
                 ) {
                     static manifest_type manifest =
-                        manifest_type(std::shared_ptr<manifest_param>(new manifest_range_param(4, 15)), false)
+                        manifest_type(std::shared_ptr<manifest_param>(new manifest_range_param(4, 15)), true)
                             .merge_with(mul::get_manifest())
                             // does not depend on actual value, so we cheat here
                             .merge_with(f1_loop::get_manifest(1))
-- 
2.43.0


From 65f33b7b2abf118bd3d2a8e6bb46b51eea66a89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:09:43 +0000
Subject: [PATCH 44/74] fix: do not keep the first manifest for components
 whose manifest depends on parameters

The manifests were static, so the columns required for the parameters of
the first call were reported for every later call.
---
 .../algebra/fields/plonk/non_native/comparison_checked.hpp      | 2 +-
 .../algebra/fields/plonk/non_native/comparison_flag.hpp         | 2 +-
 .../blueprint/components/algebra/fields/plonk/range_check.hpp   | 2 +-
 .../components/systems/snark/plonk/flexible/pow_factor.hpp      | 2 +-
 .../systems/snark/plonk/placeholder/fri_array_swap.hpp          | 2 +-
 .../components/systems/snark/plonk/placeholder/fri_cosets.hpp   | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
index cf18aa4..5af9772 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
@@ -170,7 +170,7 @@ namespace nil {
 
                 static manifest_type get_manifest(std::size_t bits_amount,
                                                   comparison_mode mode) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(
                                 3, std::max<std::size_t>(4, (bits_amount + chunk_size - 1) / chunk_size + 1))),
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
index bd5e010..5c771dd 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
@@ -190,7 +190,7 @@ namespace nil {
                 }
 
                 static manifest_type get_manifest(std::size_t bits_amount, comparison_mode mode) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(3, std::max<std::size_t>(4, (bits_amount + 28 - 1) / 28 + 1))),
                         true
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp b/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp
index 6bf2e22..96cbc00 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp
@@ -135,7 +135,7 @@ namespace nil {
                 }
 
                 static manifest_type get_manifest(std::size_t bits_amount) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(2, std::max<std::size_t>(3, bits_amount / chunk_size + 2))),
                         true
diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
index a9e69d9..3a14ac9 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
@@ -112,7 +112,7 @@ namespace nil {
 
                 static manifest_type get_manifest(
                     std::size_t power) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(new manifest_range_param(10, 10 + power / 6 + 1, 8)),
                         true
                     );
diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
index adeaa84..b721e30 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
@@ -87,7 +87,7 @@ namespace nil {
                 }
 
                 static manifest_type get_manifest(std::size_t half_array_size) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         // TODO: make the manifest depend on half_array_size
                         // this requires the manifest rework
                         std::shared_ptr<manifest_param>(new manifest_range_param(5, 5 + 4 * (half_array_size - 1) + 1, 4)),
diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp
index 85f13a5..7b8e01a 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp
@@ -137,7 +137,7 @@ namespace nil {
                 }
 
                 static manifest_type get_manifest(std::size_t n, value_type omega) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(9, n * 9 + 1, 9)
                         ),
-- 
2.43.0


From 551ed81f309fbdb123ed03ad71609a8deab5a716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:12:29 +0000
Subject: [PATCH 45/74] fix: compare gate manifests of the same component
 through the base class operator

The comparison operators did not override component_gate_manifest's, so
gate manifests for different parameters counted as equal and merging them
lost the gates of all but one.
---
 .../fields/plonk/non_native/comparison_checked.hpp   | 12 +++++++-----
 .../fields/plonk/non_native/division_remainder.hpp   |  2 +-
 .../fields/plonk/non_native/equality_flag.hpp        |  4 ++--
 .../systems/snark/plonk/flexible/poseidon.hpp        |  4 ++--
 .../systems/snark/plonk/flexible/pow_factor.hpp      |  5 ++---
 .../snark/plonk/placeholder/fri_array_swap.hpp       |  8 +++++---
 6 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
index 5af9772..223083b 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
@@ -153,11 +153,13 @@ namespace nil {
                         return comparison_checked::gates_amount_internal(bits_amount, mode);
                     }
 
-                    bool operator<(gate_manifest_type const& other) const {
-                        return witness_amount < other.witness_amount ||
-                               (witness_amount == other.witness_amount && bits_amount < other.bits_amount) ||
-                               (witness_amount == other.witness_amount &&
-                                bits_amount == other.bits_amount && mode < other.mode);
+                    bool operator<(const component_gate_manifest *other) const override {
+                        const gate_manifest_type *other_casted = dynamic_cast<const gate_manifest_type*>(other);
+                        return witness_amount < other_casted->witness_amount ||
+                               (witness_amount == other_casted->witness_amount &&
+                                bits_amount < other_casted->bits_amount) ||
+                               (witness_amount == other_casted->witness_amount &&
+                                bits_amount == other_casted->bits_amount && mode < other_casted->mode);
                     }
                 };
 
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp
index 328f37f..a010436 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp
@@ -97,7 +97,7 @@ namespace nil {
                         return division_remainder::gates_amount;
                     }
 
-                    bool operator<(const component_gate_manifest *other) {
+                    bool operator<(const component_gate_manifest *other) const override {
                         const gate_manifest_type *other_casted =
                             dynamic_cast<const gate_manifest_type*>(other);
                         return witness_amount < other_casted->witness_amount;
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/equality_flag.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/equality_flag.hpp
index dfaa530..5d8656a 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/equality_flag.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/equality_flag.hpp
@@ -61,8 +61,8 @@ namespace nil {
                         return equality_flag::gates_amount;
                     }
 
-                    bool operator<(gate_manifest_type const& other) const {
-                        return inequality < other.inequality;
+                    bool operator<(const component_gate_manifest *other) const override {
+                        return inequality < dynamic_cast<const gate_manifest_type*>(other)->inequality;
                     }
                 };
 
diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
index ea05f3a..c641f4b 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
@@ -82,8 +82,8 @@ namespace nil {
                     gate_manifest_type(std::size_t _witness_amount) :
                         witness_amount(_witness_amount) {};
 
-                    bool operator<(gate_manifest_type const& other) const {
-                        return witness_amount < other.witness_amount;
+                    bool operator<(const component_gate_manifest *other) const override {
+                        return witness_amount < dynamic_cast<const gate_manifest_type*>(other)->witness_amount;
                     }
 
                     std::uint32_t gates_amount() const override {
diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
index 3a14ac9..4f9f15d 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
@@ -94,9 +94,8 @@ namespace nil {
                     gate_manifest_type(std::size_t witness_amount_) :
                         witness_amount((witness_amount_ - 10) / 8){};
 
-                    bool operator<(gate_manifest_type const& other) const {
-                        return witness_amount < other.witness_amount ||
-                               (witness_amount == other.witness_amount);
+                    bool operator<(const component_gate_manifest *other) const override {
+                        return witness_amount < dynamic_cast<const gate_manifest_type*>(other)->witness_amount;
                     }
 
                     std::uint32_t gates_amount() const override {
diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
index b721e30..8111464 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
@@ -70,9 +70,11 @@ namespace nil {
                     gate_manifest_type(std::size_t witness_amount_, std::size_t half_array_size_) :
                         witness_amount((witness_amount_ - 1) / 4), half_array_size(half_array_size_) {};
 
-                    bool operator<(gate_manifest_type const& other) const {
-                        return witness_amount < other.witness_amount ||
-                               (witness_amount == other.witness_amount && half_array_size < other.half_array_size);
+                    bool operator<(const component_gate_manifest *other) const override {
+                        const gate_manifest_type *other_casted = dynamic_cast<const gate_manifest_type*>(other);
+                        return witness_amount < other_casted->witness_amount ||
+                               (witness_amount == other_casted->witness_amount &&
+                                half_array_size < other_casted->half_array_size);
                     }
 
                     std::uint32_t gates_amount() const override {
-- 
2.43.0


From a045d0649024359ea68746c9471eb773b0e4835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:45 +0000
Subject: [PATCH 46/74] fix: tell the gates of bit decompositions in different
 numbers of columns apart

The gate of a bit composition depends on the number of columns, but the
gate manifests compared equal, so merging them lost one of the gates.
---
 .../non_native/detail/bit_builder_component.hpp     | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/detail/bit_builder_component.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/detail/bit_builder_component.hpp
index 751412d..0affdfd 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/detail/bit_builder_component.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/detail/bit_builder_component.hpp
@@ -32,6 +32,7 @@
 #include <nil/blueprint/component.hpp>
 #include <nil/blueprint/manifest.hpp>
 
+#include <tuple>
 #include <utility>
 
 namespace nil {
@@ -166,11 +167,12 @@ namespace nil {
 
                     class gate_manifest_type : public component_gate_manifest {
                     private:
+                        std::size_t witness_amount;
                         std::size_t bits_amount;
                         bool check_bits;
                     public:
-                        gate_manifest_type(std::size_t bits_amount_, bool check_bits_)
-                            : bits_amount(bits_amount_), check_bits(check_bits_) {}
+                        gate_manifest_type(std::size_t witness_amount_, std::size_t bits_amount_, bool check_bits_)
+                            : witness_amount(witness_amount_), bits_amount(bits_amount_), check_bits(check_bits_) {}
 
                         std::uint32_t gates_amount() const override {
                             return bit_builder_component::gates_amount;
@@ -178,8 +180,9 @@ namespace nil {
 
                         bool operator<(const component_gate_manifest *other) const override {
                             const gate_manifest_type* other_casted = dynamic_cast<const gate_manifest_type*>(other);
-                            return bits_amount < other_casted->bits_amount ||
-                                   (bits_amount == other_casted->bits_amount && check_bits < other_casted->check_bits);
+                            return std::tie(witness_amount, bits_amount, check_bits) <
+                                   std::tie(other_casted->witness_amount, other_casted->bits_amount,
+                                            other_casted->check_bits);
                         }
                     };
 
@@ -187,7 +190,7 @@ namespace nil {
                                                            std::size_t bits_amount,
                                                            bool check_bits,
                                                            bit_composition_mode mode) {
-                        gate_manifest manifest = gate_manifest(gate_manifest_type(bits_amount, check_bits));
+                        gate_manifest manifest = gate_manifest(gate_manifest_type(witness_amount, bits_amount, check_bits));
                         return manifest;
                     }
 
-- 
2.43.0


From 598a1af697727965ecab4fd140c0dded0f63c71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:34 +0000
Subject: [PATCH 47/74] fix: tell the gates of flexible components with
 different parameters apart

The gates depend on the number of columns, and for constant powers on the
exponent, but the gate manifests compared equal, so merging them lost gates.
---
 .../systems/snark/plonk/flexible/additions.hpp           | 9 ++++++++-
 .../systems/snark/plonk/flexible/constant_pow.hpp        | 6 ++++++
 .../systems/snark/plonk/flexible/multiplications.hpp     | 9 ++++++++-
 .../components/systems/snark/plonk/flexible/x_index.hpp  | 9 ++++++++-
 4 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/additions.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/additions.hpp
index 5a7d1d6..8b79c4c 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/additions.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/additions.hpp
@@ -57,17 +57,24 @@ namespace nil {
                 std::size_t n;
 
                 class gate_manifest_type : public component_gate_manifest {
+                    std::size_t witness_amount;
                 public:
+                    gate_manifest_type(std::size_t witness_amount_) : witness_amount(witness_amount_) {}
+
                     std::uint32_t gates_amount() const override {
                         return flexible_additions::gates_amount;
                     }
+
+                    bool operator<(const component_gate_manifest *other) const override {
+                        return witness_amount < dynamic_cast<const gate_manifest_type*>(other)->witness_amount;
+                    }
                 };
 
                 static gate_manifest get_gate_manifest(
                     std::size_t witness_amount,
                     std::size_t n
                 ) {
-                    gate_manifest manifest = gate_manifest(gate_manifest_type());
+                    gate_manifest manifest = gate_manifest(gate_manifest_type(witness_amount));
                     return manifest;
                 }
 
diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
index 33b639e..5bf4697 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
@@ -107,6 +107,12 @@ namespace nil {
                         }
                         return 1 + other_rows.size();
                     }
+
+                    bool operator<(const component_gate_manifest *other) const override {
+                        const gate_manifest_type *other_casted = dynamic_cast<const gate_manifest_type*>(other);
+                        return _witness_amount < other_casted->_witness_amount ||
+                               (_witness_amount == other_casted->_witness_amount && _pow < other_casted->_pow);
+                    }
                 };
 
                 static gate_manifest get_gate_manifest(
diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/multiplications.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/multiplications.hpp
index 87d8b28..3fd5881 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/multiplications.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/multiplications.hpp
@@ -57,17 +57,24 @@ namespace nil {
                 std::size_t n;
 
                 class gate_manifest_type : public component_gate_manifest {
+                    std::size_t witness_amount;
                 public:
+                    gate_manifest_type(std::size_t witness_amount_) : witness_amount(witness_amount_) {}
+
                     std::uint32_t gates_amount() const override {
                         return flexible_multiplications::gates_amount;
                     }
+
+                    bool operator<(const component_gate_manifest *other) const override {
+                        return witness_amount < dynamic_cast<const gate_manifest_type*>(other)->witness_amount;
+                    }
                 };
 
                 static gate_manifest get_gate_manifest(
                     std::size_t witness_amount,
                     std::size_t n
                 ) {
-                    gate_manifest manifest = gate_manifest(gate_manifest_type());
+                    gate_manifest manifest = gate_manifest(gate_manifest_type(witness_amount));
                     return manifest;
                 }
 
diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
index bc68b48..46eacff 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
@@ -60,17 +60,24 @@ namespace nil {
                 value_type  omega;
 
                 class gate_manifest_type : public component_gate_manifest {
+                    std::size_t witness_amount;
                 public:
+                    gate_manifest_type(std::size_t witness_amount_) : witness_amount(witness_amount_) {}
+
                     std::uint32_t gates_amount() const override {
                         return flexible_x_index::gates_amount;
                     }
+
+                    bool operator<(const component_gate_manifest *other) const override {
+                        return witness_amount < dynamic_cast<const gate_manifest_type*>(other)->witness_amount;
+                    }
                 };
 
                 static gate_manifest get_gate_manifest(
                     std::size_t witness_amount,
                     std::size_t n
                 ) {
-                    gate_manifest manifest = gate_manifest(gate_manifest_type());
+                    gate_manifest manifest = gate_manifest(gate_manifest_type(witness_amount));
                     return manifest;
                 }
 
-- 
2.43.0


From b8b398adec3f2e47448aa05f6c7ca922f5845925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:58 +0000
Subject: [PATCH 48/74] fix: tie the state selector to its input

---
 include/nil/blueprint/zkevm/state_selector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nil/blueprint/zkevm/state_selector.hpp b/include/nil/blueprint/zkevm/state_selector.hpp
index 7a4462d..efb9ab2 100644
--- a/include/nil/blueprint/zkevm/state_selector.hpp
+++ b/include/nil/blueprint/zkevm/state_selector.hpp
@@ -268,6 +268,8 @@ namespace nil {
                 std::size_t selector_index = generate_gates(component, bp, assignment, instance_input);
                 assignment.enable_selector(selector_index, start_row_index, start_row_index);
 
+                generate_copy_constraints(component, bp, assignment, instance_input, start_row_index);
+
                 return typename component_type::result_type(component, start_row_index);
             }
 
-- 
2.43.0


From f64600a276486604aa2c45850c689d9b0572bc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:24:13 +0000
Subject: [PATCH 49/74] fix: compare gate manifests of state selectors through
 the base class operator

---
 include/nil/blueprint/zkevm/state_selector.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/nil/blueprint/zkevm/state_selector.hpp b/include/nil/blueprint/zkevm/state_selector.hpp
index efb9ab2..6e90278 100644
--- a/include/nil/blueprint/zkevm/state_selector.hpp
+++ b/include/nil/blueprint/zkevm/state_selector.hpp
@@ -62,9 +62,11 @@ namespace nil {
                     gate_manifest_type(std::size_t witness_amount_, std::size_t options_amount_) :
                         witness_amount(witness_amount_), options_amount(options_amount_) {};
 
-                    bool operator<(gate_manifest_type const& other) const {
-                        return witness_amount < other.witness_amount ||
-                               (witness_amount == other.witness_amount && options_amount < other.options_amount);
+                    bool operator<(const component_gate_manifest *other) const override {
+                        const gate_manifest_type *other_casted = dynamic_cast<const gate_manifest_type*>(other);
+                        return witness_amount < other_casted->witness_amount ||
+                               (witness_amount == other_casted->witness_amount &&
+                                options_amount < other_casted->options_amount);
                     }
 
                     std::uint32_t gates_amount() const override {
-- 
2.43.0


From 76209b010b6331cbb0f8ebdc0f66a85766f7a293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:24:13 +0000
Subject: [PATCH 50/74] fix: tie the row selector of the zkEVM circuit to the
 row of the opcode

Constraints of inner rows of an opcode are switched on by the row selector,
whose index column could be filled independently of rows_until_next_op, so
that these constraints could be switched off.
---
 include/nil/blueprint/zkevm/zkevm_circuit.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/blueprint/zkevm/zkevm_circuit.hpp b/include/nil/blueprint/zkevm/zkevm_circuit.hpp
index 5aec158..97df8d7 100644
--- a/include/nil/blueprint/zkevm/zkevm_circuit.hpp
+++ b/include/nil/blueprint/zkevm/zkevm_circuit.hpp
@@ -340,6 +340,9 @@ namespace nil {
                 auto opcode_row_selector_constraints = opcode_row_selector->generate_constraints();
                 middle_constraints.insert(middle_constraints.end(), opcode_row_selector_constraints.begin(),
                                           opcode_row_selector_constraints.end());
+                // row selected inside of the opcode is the one given by the state
+                middle_constraints.push_back(
+                    opcode_row_selector->option_variable(0) - state.rows_until_next_op.variable());
 
                 auto generic_state_transition_constraints = generate_generic_transition_constraints(
                     start_selector, end_selector);
-- 
2.43.0


From f765caf8f72742aaa1af555043990fb54b738b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:24:13 +0000
Subject: [PATCH 51/74] fix: do not let a zkEVM opcode start before the
 previous one has finished

step_selection was unconstrained on the inner rows of an opcode: another
opcode of matching height could be started there, or the constraints of
the remaining rows scaled away.
---
 include/nil/blueprint/zkevm/zkevm_circuit.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/blueprint/zkevm/zkevm_circuit.hpp b/include/nil/blueprint/zkevm/zkevm_circuit.hpp
index 97df8d7..8f3729d 100644
--- a/include/nil/blueprint/zkevm/zkevm_circuit.hpp
+++ b/include/nil/blueprint/zkevm/zkevm_circuit.hpp
@@ -282,6 +282,9 @@ namespace nil {
                 // new opcode selection is forced if new opcode is next
                 constraints.push_back(
                     (1 - rows_until_next_op_inv_prev_var * rows_until_next_op_prev_var) * (1 - step_selection_var));
+                // new opcode can't be selected before all rows of the previous one have passed
+                constraints.push_back(
+                    rows_until_next_op_inv_prev_var * rows_until_next_op_prev_var * step_selection_var);
                 // freeze some of the the state variables unless new opcode is next
                 // or we are at the end of the circuit
                 auto partial_state_transition_constraints = generate_transition_constraints(
-- 
2.43.0


From 19902d62690219d9db5d5bd2c33ceecabd74087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:24:13 +0000
Subject: [PATCH 52/74] fix: do not accept opcodes marked as pushed bytes in
 the bytecode circuit

Nothing kept push_size from going below zero, so the bytes after an opcode
that pushes nothing could be marked as data.
---
 include/nil/blueprint/zkevm/bytecode.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/blueprint/zkevm/bytecode.hpp b/include/nil/blueprint/zkevm/bytecode.hpp
index 2d09e68..0d35a86 100644
--- a/include/nil/blueprint/zkevm/bytecode.hpp
+++ b/include/nil/blueprint/zkevm/bytecode.hpp
@@ -504,7 +504,11 @@ namespace nil {
 //              }
 
                 lookup_constraints.push_back(bytecode_range_check);
+                // push_size can't become negative: bytes which are not pushed are opcodes
+                lookup_constraint_type push_size_range_check = {lookup_tables_indices.at("byte_range_table/full"), {tag * push_size}};
+
                 lookup_constraints.push_back(opcode_constraint);
+                lookup_constraints.push_back(push_size_range_check);
 
                 std::size_t selector_id = bp.get_dynamic_table_definition("zkevm_bytecode")->lookup_table.tag_index;
                 bp.add_gate(selector_id, constraints);
-- 
2.43.0


From 199ad1dd70a3fdcb14776fef0e898a262958d688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:24:13 +0000
Subject: [PATCH 53/74] fix: enable the lookup of the row beside the table in
 the bytecode table tester

---
 include/nil/blueprint/zkevm/bytecode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/zkevm/bytecode.hpp b/include/nil/blueprint/zkevm/bytecode.hpp
index 0d35a86..09ddfdd 100644
--- a/include/nil/blueprint/zkevm/bytecode.hpp
+++ b/include/nil/blueprint/zkevm/bytecode.hpp
@@ -767,7 +767,7 @@ namespace nil {
 
                 lookup_constraint_type constraint_aside = {lookup_tables_indices.at("zkevm_bytecode"), {tag, index, value, is_opcode, hash_hi, hash_lo}};
                 std::size_t selector_aside = bp.add_lookup_gate({constraint_aside});
-                assignment.enable_selector(selector_above, start_row_index+1, start_row_index+1);
+                assignment.enable_selector(selector_aside, start_row_index+1, start_row_index+1);
 
                 return typename component_type::result_type(component, start_row_index);
             }
-- 
2.43.0


From f9d692a4984e95d8db4955c3e3758a1aba9c414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:53 +0000
Subject: [PATCH 54/74] fix: do not accept quotients for which the product
 overflows in the zkEVM division

The division was only checked modulo 2^256, so the quotient of the dividend
plus a multiple of 2^256 was accepted as well.
---
 include/nil/blueprint/zkevm/operations/div.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/nil/blueprint/zkevm/operations/div.hpp b/include/nil/blueprint/zkevm/operations/div.hpp
index f170a03..d7ce0d9 100644
--- a/include/nil/blueprint/zkevm/operations/div.hpp
+++ b/include/nil/blueprint/zkevm/operations/div.hpp
@@ -160,6 +160,14 @@ namespace nil {
                 // add constraints for c_2/c_4: c_2 is 0/1, c_4 is 0/1/2/3
                 constraints.push_back(position_1 * c_2 * (c_2 - 1));
                 constraints.push_back(position_1 * c_4 * (c_4 - 1) * (c_4 - 2) * (c_4 - 3));
+                // the product and the remainder must fit in a word: nothing is carried out of it, and
+                // partial products which are not a part of the carryless sums are zero
+                constraints.push_back(position_1 * c_3_64);
+                constraints.push_back(position_1 * c_4);
+                constraints.push_back(
+                    position_1 * (b_64_chunks_1[1] * r_64_chunks_1[3] + b_64_chunks_1[2] * r_64_chunks_1[2] +
+                                  b_64_chunks_1[2] * r_64_chunks_1[3] + b_64_chunks_1[3] * r_64_chunks_1[1] +
+                                  b_64_chunks_1[3] * r_64_chunks_1[2] + b_64_chunks_1[3] * r_64_chunks_1[3]));
                 // TODO: figure out how to add lookup constraints to constrain chunks of q
                 // force r = 0 if b = 0
                 constraint_type b_zero = 1 - b_sum_inverse_1 * b_sum_1;
-- 
2.43.0


From ae4e4c1344cdf0686128ad5978913ec8dc0eb916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:16 +0000
Subject: [PATCH 55/74] fix: apply the constraints of the second row of a zkEVM
 opcode to that row only

---
 include/nil/blueprint/zkevm/zkevm_circuit.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/zkevm/zkevm_circuit.hpp b/include/nil/blueprint/zkevm/zkevm_circuit.hpp
index 8f3729d..a00da07 100644
--- a/include/nil/blueprint/zkevm/zkevm_circuit.hpp
+++ b/include/nil/blueprint/zkevm/zkevm_circuit.hpp
@@ -225,7 +225,8 @@ namespace nil {
                     return state.step_selection.variable();
                 }
                 if (row == opcode_height - 2) {
-                    return state.step_selection.variable(-1);
+                    // previous row could be the start of a different opcode if that opcode has only a single row
+                    return state.step_selection.variable(-1) * (1 - state.step_selection.variable());
                 }
                 if (row == 0) {
                     return 1 - height_var * height_var_inv;
-- 
2.43.0


From e8135b35e36a919a54a26266e6fe2a91e2f2f95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:31:50 +0000
Subject: [PATCH 56/74] fix: connect the inputs of a stretched component to the
 variables passed to it

---
 include/nil/blueprint/component_stretcher.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index 7ab175f..86e7a9c 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -471,8 +471,10 @@ namespace nil {
                 circuit<crypto3::zk::snark::plonk_constraint_system<
                     BlueprintFieldType>> tmp_circuit;
 
+                auto converted_input = input_type_converter<ComponentType>::convert(instance_input, assignment,
+                                                                                    tmp_assignment);
                 auto result = generate_circuit(
-                    component.component, tmp_circuit, tmp_assignment, instance_input, 0);
+                    component.component, tmp_circuit, tmp_assignment, converted_input, 0);
                 component.move_circuit(tmp_circuit, tmp_assignment, bp, assignment,
                                        instance_input, start_row_index);
                 return result_type_converter<ComponentType>::convert(component, result, instance_input,
-- 
2.43.0


From b9c5a0b91da92a465fb8727d653b1afd66f136fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:47 +0000
Subject: [PATCH 57/74] fix: do not look up the row of an input variable of a
 stretched component

---
 include/nil/blueprint/component_stretcher.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index 86e7a9c..878ed95 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -396,7 +396,10 @@ namespace nil {
                         for (auto &[new_var, old_var] :
                                               {std::make_pair(std::ref(new_first), constraint.first),
                                                std::make_pair(std::ref(new_second), constraint.second)}) {
-                            if (old_var.type == var::column_type::constant &&
+                            if (old_var.type == var::column_type::public_input) {
+                                // Replaced by an input variable, which is not moved
+                                new_var = move_var(old_var, old_var.rotation, instance_input);
+                            } else if (old_var.type == var::column_type::constant &&
                                 constant_remapping.find(old_var.rotation) != constant_remapping.end()) {
                                 new_var = move_var(
                                     old_var,
-- 
2.43.0


From c03f5d1820e7098e84ef246cf0a601086bfd0929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:24 +0000
Subject: [PATCH 58/74] fix: keep constants of a stretched component that both
 gates and copy constraints use

The constant was moved away from the row in which the gates read it.
The search for a free row of the constant columns also ran past the
last row when every row was taken.
---
 include/nil/blueprint/component_stretcher.hpp | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index 878ed95..64661e9 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -246,27 +246,32 @@ namespace nil {
                         }
                     }
                     std::size_t first_unassigned_const = 0;
-                    while (constant_assigned[first_unassigned_const]) {
-                        first_unassigned_const++;
-                    }
+                    auto skip_assigned_consts = [&constant_assigned, &first_unassigned_const]() {
+                        while (first_unassigned_const < constant_assigned.size() &&
+                               constant_assigned[first_unassigned_const]) {
+                            first_unassigned_const++;
+                        }
+                    };
+                    skip_assigned_consts();
                     for (auto curr_var : constrained_constant_vars) {
+                        if (constant_remapping.find(curr_var.rotation) != constant_remapping.end()) {
+                            // All constants of a row are moved together
+                            continue;
+                        }
                         std::size_t new_rotation = line_mapping[curr_var.rotation];
-                        if (constant_assigned[new_rotation]) {
+                        if (zones.constant_priority[curr_var.rotation]) {
+                            // Gates need the constants of this row there, copy constraints can use them too
+                            constant_remapping[curr_var.rotation] = new_rotation;
+                        } else if (constant_assigned[new_rotation]) {
                             // Need to remap
                             constant_remapping[curr_var.rotation] = first_unassigned_const;
                             constant_assigned[first_unassigned_const] = true;
-                            while (constant_assigned[first_unassigned_const]) {
-                                first_unassigned_const++;
-                            }
+                            skip_assigned_consts();
                         } else {
                             // We rely on default remapping
                              constant_remapping[curr_var.rotation] = new_rotation;
                             constant_assigned[new_rotation] = true;
-                            if (first_unassigned_const == new_rotation) {
-                                while (constant_assigned[first_unassigned_const]) {
-                                    first_unassigned_const++;
-                                }
-                            }
+                            skip_assigned_consts();
                         }
                     }
                     this->rows_amount = std::max_element(zones.zone_sizes.begin(), zones.zone_sizes.end(),
-- 
2.43.0


From 64d6997955d6dec29ebe78bf69f682e7dc3c729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:51 +0000
Subject: [PATCH 59/74] fix: move constants of a stretched component that
 leaves its first constant column empty

---
 include/nil/blueprint/component_stretcher.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index 64661e9..693fb1a 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -379,7 +379,7 @@ namespace nil {
                         }
                     }
                     // 3) Move constants
-                    if (tmp_assignment.constants_amount() > 0 && tmp_assignment.constant_column_size(0) > 0) {
+                    if (tmp_assignment.constants_amount() > 0) {
                         for (std::size_t i = 0; i < this->component.rows_amount; i++) {
                             for (std::size_t c = 0; c < tmp_assignment.constants_amount(); c++) {
                                 if (i >= tmp_assignment.constant_column_size(c)) {
-- 
2.43.0


From ac531c232f134c585321b2fd44ef886147d789f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:34:23 +0000
Subject: [PATCH 60/74] fix: announce all rows of a stretched component

The size of the largest zone was announced, but several zones are put
below each other when there are more zones than groups of columns.
---
 include/nil/blueprint/component_stretcher.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index 693fb1a..ae31c5c 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -274,8 +274,11 @@ namespace nil {
                             skip_assigned_consts();
                         }
                     }
-                    this->rows_amount = std::max_element(zones.zone_sizes.begin(), zones.zone_sizes.end(),
-                                                         [](auto a, auto b) { return a.second < b.second; })->second;
+                    // Several zones can share columns, and remapped constants can be below all zones
+                    this->rows_amount = *std::max_element(zone_rows.begin(), zone_rows.end());
+                    for (const auto &[old_row, new_row] : constant_remapping) {
+                        this->rows_amount = std::max(this->rows_amount, new_row + 1);
+                    }
                     this->remapping_computed = true;
                 }
 
-- 
2.43.0


From e7e8be7c282a375dad5e8b09d44f1d5733fecb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:34:56 +0000
Subject: [PATCH 61/74] fix: keep rows of a stretched component next to the
 constants their gates read

A gate reading a constant of the previous or next row could be moved
without that row.
---
 include/nil/blueprint/component_stretcher.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index ae31c5c..108614e 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -147,6 +147,7 @@ namespace nil {
                         // The proper way of dealing with constants requires changing the NP-hard problem being solved
                         // This is a hack
                         if (connection[3]) {
+                            zones.zones.union_set(row_idx - 1, row_idx);
                             zones.zones.union_set(row_idx - 1, zones.constant_zone_idx());
                             zones.constant_priority[row_idx - 1] = true;
                         }
@@ -155,6 +156,7 @@ namespace nil {
                             zones.constant_priority[row_idx] = true;
                         }
                         if (connection[5]) {
+                            zones.zones.union_set(row_idx + 1, row_idx);
                             zones.zones.union_set(row_idx + 1, zones.constant_zone_idx());
                             zones.constant_priority[row_idx + 1] = true;
                         }
-- 
2.43.0


From fa33690aa3b4c919b300dbcfc71b3cbc2b50d62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:43 +0000
Subject: [PATCH 62/74] fix: range-check the result of non-native addition and
 subtraction in the component's own columns

---
 .../components/algebra/fields/plonk/non_native/addition.hpp    | 3 ++-
 .../components/algebra/fields/plonk/non_native/subtraction.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp
index 5ceeaf8..f82057d 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp
@@ -333,7 +333,8 @@ namespace nil {
                 using range_type = typename plonk_ed25519_addition<BlueprintFieldType>::range_type;
 
                 typename range_type::input_type range_input_r = {
-                    var(0, row + 2, false), var(1, row + 2, false), var(2, row + 2, false), var(3, row + 2, false)};
+                    var(component.W(0), row + 2, false), var(component.W(1), row + 2, false),
+                    var(component.W(2), row + 2, false), var(component.W(3), row + 2, false)};
 
                 range_type range_component_instance({component.W(0), component.W(1), component.W(2), component.W(3),
                                                      component.W(4), component.W(5), component.W(6), component.W(7),
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
index 78fa308..af1c88a 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
@@ -337,7 +337,8 @@ namespace nil {
                 using range_type = typename plonk_ed25519_subtraction<BlueprintFieldType>::range_type;
 
                 typename range_type::input_type range_input_r = {
-                    var(0, row + 2, false), var(1, row + 2, false), var(2, row + 2, false), var(3, row + 2, false)};
+                    var(component.W(0), row + 2, false), var(component.W(1), row + 2, false),
+                    var(component.W(2), row + 2, false), var(component.W(3), row + 2, false)};
 
                 range_type range_component_instance({component.W(0), component.W(1), component.W(2), component.W(3),
                                                      component.W(4), component.W(5), component.W(6), component.W(7),
-- 
2.43.0


From bdf321277d1955dd62e682ef486695f3ec70e3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:49:58 +0000
Subject: [PATCH 63/74] fix: accept non-native subtractions whose lowest limb
 borrows twice

The carry of the lowest limb was -1 for some operands with b > a, for
example 0 - (2^66 - 1), which its chunks cannot represent.
---
 .../algebra/fields/plonk/non_native/subtraction.hpp          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
index af1c88a..9755da6 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
@@ -302,7 +302,8 @@ namespace nil {
                 }
                 typename ed25519_field_type::extended_integral_type eddsa_p0 = 
                     eddsa_p & extended_mask;
-                typename BlueprintFieldType::value_type t = a[0] + eddsa_p0 - b[0] + p[0] * q[0];
+                // The carry would be -1 for some b[0] > a[0], so it is stored increased by one
+                typename BlueprintFieldType::value_type t = a[0] + eddsa_p0 - b[0] + p[0] * q[0] + (pasta_base << 66);
 
                 typename BlueprintFieldType::value_type u0 = t - r[0];
 
@@ -413,7 +414,7 @@ namespace nil {
                 auto t = var(component.W(0), 0) + p[0] * var(component.W(2), 0);
                 auto constraint_1 =
                     var(component.W(7), -1) * (base << 66) -
-                    (t + eddsa_p0 - var(component.W(1), 0) - var(component.W(0), +1));
+                    (t + eddsa_p0 + (base << 66) - var(component.W(1), 0) - var(component.W(0), +1));
                 auto constraint_2 = var(component.W(2), 0) * (var(component.W(2), 0) - 1);
                 auto constraint_3 =
                     var(component.W(7), -1) -
-- 
2.43.0


From 56160d43e6f050a127cf9d95614c415759382ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:04:39 +0000
Subject: [PATCH 64/74] fix: enable the selectors of flexible poseidon's own
 gates

The index of the gate within the component was used instead, which is
the selector of another gate unless the component comes first.
---
 .../components/systems/snark/plonk/flexible/poseidon.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
index c641f4b..b117c66 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
@@ -328,7 +328,7 @@ namespace nil {
 
                 auto selector_indices = generate_gates(component, bp, assignment, instance_input);
                 for( std::size_t i = 0; i < selector_indices.size(); i++){
-                    assignment.enable_selector(i, start_row_index+i);
+                    assignment.enable_selector(selector_indices[i], start_row_index+i);
                 }
                 generate_copy_constraints(component, bp, assignment, instance_input, start_row_index);
 
-- 
2.43.0


From af647ca64e6c5274573c8d914b9e67338f1127f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:33:19 +0000
Subject: [PATCH 65/74] fix: read the zero of the scalar multiplication from
 its own constant column

---
 .../algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp b/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
index 57fa7a4..87cc673 100644
--- a/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
+++ b/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
@@ -800,7 +800,7 @@ namespace nil {
                                         {component.W(1), (std::int32_t)(start_row_index + component.rows_amount - 3), false}});
 
                 bp.add_copy_constraint({{component.W(4), (std::int32_t)(j), false},
-                                        {component.W(0), (std::int32_t)(j), false, var::column_type::constant}});
+                                        {component.C(0), (std::int32_t)(j), false, var::column_type::constant}});
 
                 // bp.add_copy_constraint(
                 //     {instance_input.b, {component.W(5), (std::int32_t)(j + component.rows_amount - 4), false}});    // scalar value check
-- 
2.43.0


From 84b01b511a4f3196730f2a77a8b92908553affee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:29 +0000
Subject: [PATCH 66/74] fix: bind the point of the scalar multiplication to its
 input

---
 .../algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp b/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
index 87cc673..c2221fa 100644
--- a/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
+++ b/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
@@ -774,6 +774,8 @@ namespace nil {
 
                 // main algorithm
 
+                bp.add_copy_constraint({instance_input.T.x, {component.W(0), (std::int32_t)(j), false}});
+                bp.add_copy_constraint({instance_input.T.y, {component.W(1), (std::int32_t)(j), false}});
                 for (int z = 0; z < component.mul_rows_amount - 2; z += 2) {
                     bp.add_copy_constraint(
                         {{component.W(0), (std::int32_t)(j + z), false}, {component.W(0), (std::int32_t)(j + z + 2), false}});
-- 
2.43.0


From f5e2da6ce88093c610b77a3e32804556882b8526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:01:39 +0000
Subject: [PATCH 67/74] fix: connect the last row of the range check of the
 scalar multiplication

---
 .../algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp b/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
index c2221fa..f397871 100644
--- a/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
+++ b/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
@@ -817,7 +817,7 @@ namespace nil {
                 }
                 bp.add_copy_constraint(
                         {{component.C(0), (std::int32_t)(j), false, var::column_type::constant}, {component.W(6), (std::int32_t)(j + 58), false}});
-                for (int z = 0; z < 40; z += 2) {
+                for (int z = 0; z < 42; z += 2) {
                     bp.add_copy_constraint(
                         {{component.W(14), (std::int32_t)(j + 58 + z + 1), false}, {component.W(6), (std::int32_t)(j + 58 + z + 2), false}});
                 }
-- 
2.43.0


From 4e24e2910fa5f68344cc8d71319e2d1b8ecb1090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:25:24 +0000
Subject: [PATCH 68/74] fix: constrain the initial values of the endomorphism
 scalar

The first row of endo_scalar takes n = 0, a = 2 and b = 2 from the witness,
but nothing constrained these cells, so any result was accepted for any
scalar. The second gate now binds them in the first row. The constraint of
the result moves to the gate of all rows, which keeps two gates.
---
 .../algebra/curves/pasta/plonk/endo_scalar.hpp     | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/curves/pasta/plonk/endo_scalar.hpp b/include/nil/blueprint/components/algebra/curves/pasta/plonk/endo_scalar.hpp
index e3d549e..0e61d6d 100644
--- a/include/nil/blueprint/components/algebra/curves/pasta/plonk/endo_scalar.hpp
+++ b/include/nil/blueprint/components/algebra/curves/pasta/plonk/endo_scalar.hpp
@@ -187,7 +187,7 @@ namespace nil {
 
                         std::size_t j = start_row_index;
                         assignment.enable_selector(selector_indices[0], j, j + component.rows_amount - 1);
-                        assignment.enable_selector(selector_indices[1], j + component.rows_amount - 1);
+                        assignment.enable_selector(selector_indices[1], j);
 
                         generate_copy_constraints(component, bp, assignment, instance_input, start_row_index);
 
@@ -265,10 +265,9 @@ namespace nil {
                             assignment.witness(component.W(1), row) = n;
                             assignment.witness(component.W(4), row) = a;
                             assignment.witness(component.W(5), row) = b;
+                            assignment.witness(component.W(6), row) = a * component.endo_r + b;
                             row++;
                         }
-                        auto res = a * component.endo_r + b;
-                        assignment.witness(component.W(6), row - 1) = res;
                         return typename plonk_endo_scalar<BlueprintFieldType, CurveType>::result_type(component, instance_input, start_row_index);
                     }
 
@@ -333,11 +332,16 @@ namespace nil {
                         auto constraint_12 = var(component.W(6), 0) -
                             (component.endo_r * var(component.W(4), 0) + var(component.W(5), 0));
 
+                        // initial values of n, a and b
+                        auto constraint_13 = var(component.W(0), 0);
+                        auto constraint_14 = var(component.W(2), 0) - 2;
+                        auto constraint_15 = var(component.W(3), 0) - 2;
+
                         std::size_t selector_index_1 = bp.add_gate(
                             {constraint_1, constraint_2, constraint_3, constraint_4, constraint_5, constraint_6,
-                             constraint_7, constraint_8, constraint_9, constraint_10, constraint_11});
+                             constraint_7, constraint_8, constraint_9, constraint_10, constraint_11, constraint_12});
 
-                        std::size_t selector_index_2 = bp.add_gate({constraint_12});
+                        std::size_t selector_index_2 = bp.add_gate({constraint_13, constraint_14, constraint_15});
 
                         return {selector_index_1, selector_index_2};
                     }
-- 
2.43.0


From 53f2daccc63ce8a7446e57c15704bc1c792e7197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:02:50 +0000
Subject: [PATCH 69/74] fix: connect the rounds of sha256_process to the words
 and to the state

The cells of the message word and of the values d and h of a round, of the
first a and e, and of the last a and e were not connected to the cells they
are copies of, so a prover could choose them and reach any result.
---
 .../hashes/sha2/plonk/sha256_process.hpp      | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/nil/blueprint/components/hashes/sha2/plonk/sha256_process.hpp b/include/nil/blueprint/components/hashes/sha2/plonk/sha256_process.hpp
index d68874c..a66a2e7 100644
--- a/include/nil/blueprint/components/hashes/sha2/plonk/sha256_process.hpp
+++ b/include/nil/blueprint/components/hashes/sha2/plonk/sha256_process.hpp
@@ -1254,6 +1254,23 @@ namespace nil {
                 }
                 row = row + 240;
 
+                bp.add_copy_constraint(
+                    {var(component.W(0), row + 0, false), instance_input.input_state[4]});    // e
+                bp.add_copy_constraint(
+                    {var(component.W(0), row + 7, false), instance_input.input_state[0]});    // a
+
+                for (std::size_t round = 0; round < 64; round++) {
+                    const var d = round < 3 ? instance_input.input_state[3 - round] :
+                                              var(component.W(0), row + (round - 3) * 8 + 7, false);
+                    const var h = round < 3 ? instance_input.input_state[7 - round] :
+                                              var(component.W(0), row + (round - 3) * 8 + 0, false);
+                    const var word = round < 16 ? instance_input.input_words[round] :
+                                                  var(component.W(0), start_row_index + 2 + (round - 16) * 5 + 2, false);
+                    bp.add_copy_constraint({var(component.W(1), row + round * 8 + 3, false), d});
+                    bp.add_copy_constraint({var(component.W(2), row + round * 8 + 3, false), h});
+                    bp.add_copy_constraint({var(component.W(3), row + round * 8 + 3, false), word});
+                }
+
                 for (std::size_t round = 1; round < 64; round++) {
                     bp.add_copy_constraint({var(component.W(0), row + round * 8 + 0, false),
                                             var(component.W(4), row + (round - 1) * 8 + 3, false)});    // e = e_new
@@ -1276,10 +1293,12 @@ namespace nil {
 
                 row = row + 512;
 
+                bp.add_copy_constraint({var(component.W(2), row - 3, false), var(component.W(4), row, false)});
                 bp.add_copy_constraint({var(component.W(0), row - 1, false), var(component.W(5), row, false)});
                 bp.add_copy_constraint({var(component.W(0), row - 9, false), var(component.W(6), row, false)});
                 bp.add_copy_constraint({var(component.W(0), row - 17, false), var(component.W(7), row, false)});
 
+                bp.add_copy_constraint({var(component.W(4), row - 5, false), var(component.W(4), row + 2, false)});
                 bp.add_copy_constraint({var(component.W(0), row - 8, false), var(component.W(5), row + 2, false)});
                 bp.add_copy_constraint({var(component.W(0), row - 16, false), var(component.W(6), row + 2, false)});
                 bp.add_copy_constraint({var(component.W(0), row - 24, false), var(component.W(7), row + 2, false)});
-- 
2.43.0


From 540398f26b8aaf4f076cfc78fdd2ebff8392b25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:02:50 +0000
Subject: [PATCH 70/74] fix: check the range of the result of sha256_process

The last rows checked that the values of the last round have 32 bits, which
is known from the round already, instead of their sums with the state. The
carry of these sums was free, so results off by 2^32 were accepted.
---
 .../hashes/sha2/plonk/sha256_process.hpp      | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/nil/blueprint/components/hashes/sha2/plonk/sha256_process.hpp b/include/nil/blueprint/components/hashes/sha2/plonk/sha256_process.hpp
index a66a2e7..601228e 100644
--- a/include/nil/blueprint/components/hashes/sha2/plonk/sha256_process.hpp
+++ b/include/nil/blueprint/components/hashes/sha2/plonk/sha256_process.hpp
@@ -1308,15 +1308,15 @@ namespace nil {
                     bp.add_copy_constraint({var(component.W(i), row + 2, false), instance_input.input_state[i + 4]});
                 }
 
-                bp.add_copy_constraint({var(component.W(4), row, false), var(component.W(3), row + 4, false)});
-                bp.add_copy_constraint({var(component.W(5), row, false), var(component.W(7), row + 4, false)});
-                bp.add_copy_constraint({var(component.W(6), row, false), var(component.W(3), row + 5, false)});
-                bp.add_copy_constraint({var(component.W(7), row, false), var(component.W(7), row + 5, false)});
-
-                bp.add_copy_constraint({var(component.W(4), row + 2, false), var(component.W(3), row + 6, false)});
-                bp.add_copy_constraint({var(component.W(5), row + 2, false), var(component.W(7), row + 6, false)});
-                bp.add_copy_constraint({var(component.W(6), row + 2, false), var(component.W(3), row + 7, false)});
-                bp.add_copy_constraint({var(component.W(7), row + 2, false), var(component.W(7), row + 7, false)});
+                bp.add_copy_constraint({var(component.W(0), row + 1, false), var(component.W(3), row + 4, false)});
+                bp.add_copy_constraint({var(component.W(1), row + 1, false), var(component.W(7), row + 4, false)});
+                bp.add_copy_constraint({var(component.W(2), row + 1, false), var(component.W(3), row + 5, false)});
+                bp.add_copy_constraint({var(component.W(3), row + 1, false), var(component.W(7), row + 5, false)});
+
+                bp.add_copy_constraint({var(component.W(0), row + 3, false), var(component.W(3), row + 6, false)});
+                bp.add_copy_constraint({var(component.W(1), row + 3, false), var(component.W(7), row + 6, false)});
+                bp.add_copy_constraint({var(component.W(2), row + 3, false), var(component.W(3), row + 7, false)});
+                bp.add_copy_constraint({var(component.W(3), row + 3, false), var(component.W(7), row + 7, false)});
             }
 
             template<typename BlueprintFieldType>
@@ -1806,15 +1806,18 @@ namespace nil {
                 }
 
                 row = row + 2;
+                const typename component_type::result_type result(component, start_row_index);
                 typename BlueprintFieldType::integral_type integral_a2;
                 for (std::size_t i = 0; i < 4; i++) {
-                    integral_a2 = typename BlueprintFieldType::integral_type(output_state[2 * i].data);
+                    integral_a2 = typename BlueprintFieldType::integral_type(
+                        var_value(assignment, result.output_state[2 * i]).data);
                     assignment.witness(component.W(0), row + i) = ( ((1 << 14) - 1) & (integral_a2) );
                     assignment.witness(component.W(1), row + i) = ( ((1 << 14) - 1) & (integral_a2 >> 14) );
                     assignment.witness(component.W(2), row + i) = ( ((1 << 14) - 1) & (integral_a2 >> 28) );
                     assignment.witness(component.W(3), row + i) = integral_a2;
 
-                    integral_a2 = typename BlueprintFieldType::integral_type(output_state[2 * i + 1].data);
+                    integral_a2 = typename BlueprintFieldType::integral_type(
+                        var_value(assignment, result.output_state[2 * i + 1]).data);
                     assignment.witness(component.W(4), row + i) = ( ((1 << 14) - 1) & (integral_a2) );
                     assignment.witness(component.W(5), row + i) = ( ((1 << 14) - 1) & (integral_a2 >> 14) );
                     assignment.witness(component.W(6), row + i) = ( ((1 << 14) - 1) & (integral_a2 >> 28) );
-- 
2.43.0


From d329ff7c2a6ccf887e567eafad4b1c84a1d88c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:02:50 +0000
Subject: [PATCH 71/74] fix: connect the result of sha256 to the compression

The row that packs the hash into two elements was not connected to the result
of the second compression, so any hash was accepted.
---
 .../nil/blueprint/components/hashes/sha2/plonk/sha256.hpp  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/hashes/sha2/plonk/sha256.hpp b/include/nil/blueprint/components/hashes/sha2/plonk/sha256.hpp
index 51da0ed..3b9dea9 100644
--- a/include/nil/blueprint/components/hashes/sha2/plonk/sha256.hpp
+++ b/include/nil/blueprint/components/hashes/sha2/plonk/sha256.hpp
@@ -472,9 +472,14 @@ namespace nil {
                 typename sha256_process_type::input_type sha256_process_input_2 = {
                     first_block_state.output_state, input_words2_vars};
 
-                generate_circuit(sha256_process_instance, bp, assignment, sha256_process_input_2, row);
+                typename sha256_process_type::result_type second_block_state =
+                    generate_circuit(sha256_process_instance, bp, assignment, sha256_process_input_2, row);
 
                 row = row + sha256_process_instance.rows_amount;
+                for (std::size_t i = 0; i < 8; i++) {
+                    bp.add_copy_constraint(
+                        {var(component.W(i), row, false), second_block_state.output_state[i]});
+                }
                 std::size_t selector_index = generate_gates(component, bp, assignment, instance_input);
                 assignment.enable_selector(selector_index, row);
                 generate_copy_constraints(component, bp, assignment, instance_input, start_row_index);
-- 
2.43.0


From 891d69119a2339c1e63fc193d389af7417168423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:08:40 +0000
Subject: [PATCH 72/74] fix: connect sha512 to its own columns

The circuit of sha512 named the first columns of the table instead of the ones
the component was given, so the words of a component placed elsewhere were
read from foreign cells.
---
 .../components/hashes/sha2/plonk/sha512.hpp   | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/nil/blueprint/components/hashes/sha2/plonk/sha512.hpp b/include/nil/blueprint/components/hashes/sha2/plonk/sha512.hpp
index d318a1d..53e0aea 100644
--- a/include/nil/blueprint/components/hashes/sha2/plonk/sha512.hpp
+++ b/include/nil/blueprint/components/hashes/sha2/plonk/sha512.hpp
@@ -182,18 +182,18 @@ namespace nil {
 
                     for(std::size_t k = 0; k < 4; k++) {
                         for(std::size_t i = 0; i < 4; i++) {
-                            input_words_vars_1[4*k + i] = var(2*i, start_row_index + 1 + 3*k, false);
+                            input_words_vars_1[4*k + i] = var(component.W(2*i), start_row_index + 1 + 3*k, false);
                         }
                     }
 
-                    std::array<var, 8> constants_var = {var(0, start_row_index, false, var::column_type::constant),
-                                                        var(0, start_row_index + 1, false, var::column_type::constant),
-                                                        var(0, start_row_index + 2, false, var::column_type::constant),
-                                                        var(0, start_row_index + 3, false, var::column_type::constant),
-                                                        var(0, start_row_index + 4, false, var::column_type::constant),
-                                                        var(0, start_row_index + 5, false, var::column_type::constant),
-                                                        var(0, start_row_index + 6, false, var::column_type::constant),
-                                                        var(0, start_row_index + 7, false, var::column_type::constant)};
+                    std::array<var, 8> constants_var = {var(component.C(0), start_row_index, false, var::column_type::constant),
+                                                        var(component.C(0), start_row_index + 1, false, var::column_type::constant),
+                                                        var(component.C(0), start_row_index + 2, false, var::column_type::constant),
+                                                        var(component.C(0), start_row_index + 3, false, var::column_type::constant),
+                                                        var(component.C(0), start_row_index + 4, false, var::column_type::constant),
+                                                        var(component.C(0), start_row_index + 5, false, var::column_type::constant),
+                                                        var(component.C(0), start_row_index + 6, false, var::column_type::constant),
+                                                        var(component.C(0), start_row_index + 7, false, var::column_type::constant)};
                     sha512_process_component sha512_process_instance(
                                 {component.W(0), component.W(1), component.W(2), component.W(3), component.W(4),
                                     component.W(5), component.W(6), component.W(7), component.W(8)},{component.C(0)},{});
@@ -207,13 +207,13 @@ namespace nil {
                     std::array<var, 16> input_words_vars_2;
 
                     for(std::size_t i = 0; i < 4; i++) {
-                        input_words_vars_2[i] = var(2*i, start_row_index + 1 + 12, false);
+                        input_words_vars_2[i] = var(component.W(2*i), start_row_index + 1 + 12, false);
                     }
 
                     for (std::size_t i = 4; i < 15; i++) {
-                        input_words_vars_2[i] = var(0, start_row_index + 8, false, var::column_type::constant);
+                        input_words_vars_2[i] = var(component.C(0), start_row_index + 8, false, var::column_type::constant);
                     }
-                    input_words_vars_2[15] = var(0, start_row_index + 9, false, var::column_type::constant);
+                    input_words_vars_2[15] = var(component.C(0), start_row_index + 9, false, var::column_type::constant);
 
 
                     sha_params = {sha_output, input_words_vars_2};
-- 
2.43.0


From e774b0f46e6e103d5450595b50b3ec47e83f90f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:08:40 +0000
Subject: [PATCH 73/74] fix: read the round constants of sha512_process from
 its constant column

The gate named the constant column by the index of the first witness column.
---
 .../blueprint/components/hashes/sha2/plonk/sha512_process.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp b/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp
index 3f12426..5d03a46 100644
--- a/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp
+++ b/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp
@@ -390,7 +390,7 @@ namespace nil {
                     var(component.W(4), -1) * (one << (sigma_sizes[0] + sigma_sizes[1] + sigma_sizes[2] + sigma_sizes[3])) +
                     var(component.W(2), 0) + var(component.W(3), 0) * (1 << 16) +
                     var(component.W(4), 0) * (one << 32) + var(component.W(5), 0) * (one << 48) +
-                    var(component.W(0), 0, true, var::column_type::constant));
+                    var(component.C(0), 0, true, var::column_type::constant));
                     auto constraint_2 =
                         var(component.W(1), +1) + var(component.W(7), 0) - (var(component.W(2), +1) + m*var(component.W(3), +1));
                     auto constraint_3 =
-- 
2.43.0


From fc76826d6e9918650651e901f535de965313eb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:09:32 +0000
Subject: [PATCH 74/74] fix: check Sigma0 in sha512_process

The constraint that ties Sigma0 to its argument was built, but not added to the gate.
---
 .../blueprint/components/hashes/sha2/plonk/sha512_process.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp b/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp
index 5d03a46..47c68d6 100644
--- a/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp
+++ b/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp
@@ -295,7 +295,7 @@ namespace nil {
                         var(component.W(2), 0) * ((one << (11*2)) + (one << (5*2)) + 1) +
                         var(component.W(3), 0) * ((one << (25*2)) + (one << (19*2)) + (one << (14*2))));
 
-                    return bp.add_gate({constraint_1, constraint_2});
+                    return bp.add_gate({constraint_1, constraint_2, constraint_3});
                 }
 
                 template<typename BlueprintFieldType>
-- 
2.43.0

