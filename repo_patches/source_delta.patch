From d53e86b587a23b9571378316c83fc2efb151fa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 01/28] fix: size code points with 0xDF/0xEF lead bytes
 correctly and stop at the end of truncated ones

A lead byte of 0xDF or 0xEF was sized one byte too long, and a code point
truncated by the end of the string moved the iterators past the end of it, so
any token ending in such a sequence (e.g. a full-width character) caused an out
of bounds read when generating a suggestion or expanding short-form flags.
---
 include/arg_router/utility/utf8.hpp            | 6 +++---
 include/arg_router/utility/utf8/code_point.hpp | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index a313b75..a156882 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -235,7 +235,7 @@ private:
         // Iterate over each code point and its neighbour, pass their break classes into the rule
         // checker
         for (auto it = code_point::iterator{str_}; it != code_point::iterator{}; ++it) {
-            current_ += code_point::size(*it);
+            current_ += (*it).size();
 
             // If this code point is malformed, then just skip it
             const auto this_cp = code_point::decode(*it);
@@ -499,7 +499,7 @@ private:
                 if (!is_whitespace(cp)) {
                     break;
                 }
-                bytes += code_point::size(cp);
+                bytes += cp.size();
             }
             str_.remove_prefix(bytes);
 
@@ -528,7 +528,7 @@ private:
                 return;
             }
 
-            bytes += code_point::size(*it);
+            bytes += (*it).size();
 
             // If this code point is malformed, then just skip it
             const auto this_cp = code_point::decode(*it);
diff --git a/include/arg_router/utility/utf8/code_point.hpp b/include/arg_router/utility/utf8/code_point.hpp
index c1dfffd..e39f726 100644
--- a/include/arg_router/utility/utf8/code_point.hpp
+++ b/include/arg_router/utility/utf8/code_point.hpp
@@ -162,12 +162,12 @@ private:
 
     // Can't think of a way to do this without branches
     constexpr auto max_2_byte_header = std::uint8_t{0b1101'1111};
-    if (first_byte < max_2_byte_header) {
+    if (first_byte <= max_2_byte_header) {
         return 2;
     }
 
     constexpr auto max_3_byte_header = std::uint8_t{0b1110'1111};
-    if (first_byte < max_3_byte_header) {
+    if (first_byte <= max_3_byte_header) {
         return 3;
     }
 
@@ -325,7 +325,8 @@ public:
      */
     constexpr iterator& operator++() noexcept
     {
-        const auto num_bytes = code_point::size(str_);
+        // A malformed string may be truncated part way through its last code point
+        const auto num_bytes = (**this).size();
         str_.remove_prefix(num_bytes);
         return *this;
     }
-- 
2.43.0


From 918547a901cd5d33b2e878218852466922c4bf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 02/28] fix: match the whole value separator, not any one of
 its code units

---
 include/arg_router/policy/value_separator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arg_router/policy/value_separator.hpp b/include/arg_router/policy/value_separator.hpp
index 91675b1..d10e955 100644
--- a/include/arg_router/policy/value_separator.hpp
+++ b/include/arg_router/policy/value_separator.hpp
@@ -94,7 +94,7 @@ public:
         const auto first_token = *first;
 
         // Find the separator
-        const auto separator_index = first_token.name.find_first_of(value_separator());
+        const auto separator_index = first_token.name.find(value_separator());
         if (separator_index == std::string_view::npos) {
             // If we can't find the separator but the token matches the parent node name, then we
             // need to throw as the user has just forgotten the separator and needs to be told
-- 
2.43.0


From c6ea0d24b1ad01c1e89edc13cc6b86a9ee821b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 03/28] fix: do not walk past argv when argc is zero

---
 include/arg_router/root.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/root.hpp b/include/arg_router/root.hpp
index d91510a..4b4e7bc 100644
--- a/include/arg_router/root.hpp
+++ b/include/arg_router/root.hpp
@@ -227,8 +227,9 @@ public:
      */
     void parse(int argc, char** argv) const
     {
-        // Skip the program name
-        parse(&argv[1], &argv[argc]);
+        // Skip the program name, if there is one
+        const auto offset = argc > 0 ? 1 : 0;
+        parse(argv + offset, argv + argc);
     }
 
     /** Generates a root-level help string and writes it into @a stream.
-- 
2.43.0


From b723f0823034eb77bc403b61cb1361ffe9e4574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:20 +0000
Subject: [PATCH 04/28] fix: keep the one_of selection in the parse, not in the
 shared tree

---
 include/arg_router/dependency/one_of.hpp | 37 +++++++++++++++++++++---
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/include/arg_router/dependency/one_of.hpp b/include/arg_router/dependency/one_of.hpp
index 0a7e3c5..901aafc 100644
--- a/include/arg_router/dependency/one_of.hpp
+++ b/include/arg_router/dependency/one_of.hpp
@@ -90,14 +90,23 @@ public:
         const auto validator = [&](const auto& child, const auto&... parents) {
             using child_type = std::decay_t<decltype(child)>;
 
-            auto type_hash = utility::type_hash<child_type>();
-            if (last_typeid_) {
-                if (type_hash != *last_typeid_) {
+            if constexpr (HasTarget) {
+                // The parent knows what has been selected so far in this parse, so there is no need
+                // to store anything in the node - which is shared by every parse of the tree
+                if (other_child_selected<child_type>(pre_parse_data.target())) {
                     throw multi_lang_exception{error_code::one_of_selected_type_mismatch,
                                                parsing::node_token_type<one_of_t>()};
                 }
             } else {
-                last_typeid_ = type_hash;
+                auto type_hash = utility::type_hash<child_type>();
+                if (last_typeid_) {
+                    if (type_hash != *last_typeid_) {
+                        throw multi_lang_exception{error_code::one_of_selected_type_mismatch,
+                                                   parsing::node_token_type<one_of_t>()};
+                    }
+                } else {
+                    last_typeid_ = type_hash;
+                }
             }
 
             return pre_parse_data.validator()(child, parents...);
@@ -129,6 +138,26 @@ public:
     }
 
 private:
+    /** True if @a target already has a sub-target from any child other than @a Selected. */
+    template <typename Selected>
+    [[nodiscard]] bool other_child_selected(const parsing::parse_target& target) const noexcept
+    {
+        auto result = false;
+        utility::tuple_iterator(
+            [&](auto /*i*/, const auto& child) {
+                using child_type = std::decay_t<decltype(child)>;
+
+                if constexpr (!std::is_same_v<child_type, Selected>) {
+                    for (const auto& sub_target : target.sub_targets()) {
+                        result |= (sub_target.node_type() == utility::type_hash<child_type>());
+                    }
+                }
+            },
+            this->children());
+
+        return result;
+    }
+
     mutable std::optional<std::size_t> last_typeid_;
 };
 
-- 
2.43.0


From 35e38f2865c1dc4de471015ba1eecd0e1a9390ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 05/28] fix: let allocation failures and value exceptions
 propagate during a parse

These functions allocate, or copy user values, but were noexcept so any failure
ended the process.  The filtered results are now moved, as documented, rather
than copied; and unsafe_any no longer leaks if a value's constructor throws.
---
 include/arg_router/algorithm.hpp            |  7 ++++---
 include/arg_router/help.hpp                 |  3 +--
 include/arg_router/parsing/parse_target.hpp |  4 ++--
 include/arg_router/policy/default_value.hpp |  2 +-
 include/arg_router/utility/unsafe_any.hpp   | 12 +++++++++---
 5 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/include/arg_router/algorithm.hpp b/include/arg_router/algorithm.hpp
index ca20ade..e7578b3 100644
--- a/include/arg_router/algorithm.hpp
+++ b/include/arg_router/algorithm.hpp
@@ -175,7 +175,7 @@ namespace detail
 template <typename U, typename... I>
 [[nodiscard]] constexpr auto tuple_filter_and_construct_impl(
     U&& input,
-    [[maybe_unused]] std::tuple<I...> Is) noexcept
+    [[maybe_unused]] std::tuple<I...> Is)
 {
     return std::tuple{std::get<I::value>(std::forward<U>(input))...};
 }
@@ -193,7 +193,7 @@ template <typename U, typename... I>
  * @return Result tuple
  */
 template <template <typename...> typename Fn, typename U>
-[[nodiscard]] constexpr auto tuple_filter_and_construct(U&& input) noexcept
+[[nodiscard]] constexpr auto tuple_filter_and_construct(U&& input)
 {
     // Zip together an index-sequence of U and the elements of it
     using zipped =
@@ -206,7 +206,8 @@ template <template <typename...> typename Fn, typename U>
     using filtered = boost::mp11::mp_filter_q<wrapped_fn, zipped>;
 
     // Fold construct the return value using the zip indices as accessors to input
-    return detail::tuple_filter_and_construct_impl(input, typename unzip<filtered>::first_type{});
+    return detail::tuple_filter_and_construct_impl(std::forward<U>(input),
+                                                   typename unzip<filtered>::first_type{});
 }
 
 namespace detail
diff --git a/include/arg_router/help.hpp b/include/arg_router/help.hpp
index ec53378..409e7f4 100644
--- a/include/arg_router/help.hpp
+++ b/include/arg_router/help.hpp
@@ -133,8 +133,7 @@ public:
      * @return Runtime help data
      */
     template <bool Flatten, typename Node>
-    [[nodiscard]] runtime_help_data generate_runtime_help_data(
-        const Node& start_node) const noexcept
+    [[nodiscard]] runtime_help_data generate_runtime_help_data(const Node& start_node) const
     {
         using node_hdt = typename Node::template help_data_type<Flatten>;
 
diff --git a/include/arg_router/parsing/parse_target.hpp b/include/arg_router/parsing/parse_target.hpp
index 25024c8..5139e7f 100644
--- a/include/arg_router/parsing/parse_target.hpp
+++ b/include/arg_router/parsing/parse_target.hpp
@@ -38,7 +38,7 @@ public:
      * @param parents Parents of @a node
      */
     template <typename Node, typename... Parents>
-    parse_target(vector<token_type> tokens, const Node& node, const Parents&... parents) noexcept :
+    parse_target(vector<token_type> tokens, const Node& node, const Parents&... parents) :
         node_type_{utility::type_hash<std::decay_t<Node>>()}, tokens_(std::move(tokens))
     {
         static_assert(is_tree_node_v<Node>, "Target must be a tree_node");
@@ -64,7 +64,7 @@ public:
     // https://github.com/llvm/llvm-project/issues/37250
     // NOLINTNEXTLINE(*-member-init)
     explicit parse_target(const Node& node,  //
-                          const Parents&... parents) noexcept :
+                          const Parents&... parents) :
         parse_target(vector<token_type>{}, node, parents...)
     {
     }
diff --git a/include/arg_router/policy/default_value.hpp b/include/arg_router/policy/default_value.hpp
index c11e6d7..cffd1b1 100644
--- a/include/arg_router/policy/default_value.hpp
+++ b/include/arg_router/policy/default_value.hpp
@@ -39,7 +39,7 @@ public:
      */
     template <typename ValueType, typename... Parents>
     [[nodiscard]] constexpr ValueType missing_phase(
-        [[maybe_unused]] const Parents&... parents) const noexcept
+        [[maybe_unused]] const Parents&... parents) const
     {
         return value_;
     }
diff --git a/include/arg_router/utility/unsafe_any.hpp b/include/arg_router/utility/unsafe_any.hpp
index 4443ee6..da51a57 100644
--- a/include/arg_router/utility/unsafe_any.hpp
+++ b/include/arg_router/utility/unsafe_any.hpp
@@ -44,7 +44,7 @@ public:
               typename = std::enable_if_t<use_internal_storage<T> &&
                                           !std::is_same_v<std::decay_t<T>, unsafe_any_t>>>
     // NOLINTNEXTLINE(google-explicit-constructor, hicpp-explicit-conversions)
-    unsafe_any_t(T&& value) noexcept
+    unsafe_any_t(T&& value) noexcept(std::is_nothrow_constructible_v<std::decay_t<T>, T>)
     {
         using value_type = std::decay_t<T>;
 
@@ -79,8 +79,14 @@ public:
         using value_type = std::decay_t<T>;
 
         // Build using memory from allocator
-        storage_.ptr = alloc.allocate(1);
-        new (storage_.ptr) value_type(std::forward<T>(value));
+        auto s_ptr = alloc.allocate(1);
+        try {
+            new (s_ptr) value_type(std::forward<T>(value));
+        } catch (...) {
+            alloc.deallocate(s_ptr, 1);
+            throw;
+        }
+        storage_.ptr = s_ptr;
 
         copier_ = [](const storage_type& storage) -> unsafe_any_t {
             return *reinterpret_cast<const value_type*>(storage.ptr);
-- 
2.43.0


From 452593656a7508566b43680e5756a740635c496b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 06/28] fix: leave the tokens after a leading token end marker
 to the next node

---
 include/arg_router/policy/min_max_count.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/arg_router/policy/min_max_count.hpp b/include/arg_router/policy/min_max_count.hpp
index 1e8a5d7..fe1832e 100644
--- a/include/arg_router/policy/min_max_count.hpp
+++ b/include/arg_router/policy/min_max_count.hpp
@@ -109,6 +109,11 @@ public:
                                         parsing::node_token_type<owner_type>()};
         }
 
+        // If there is a leading token end marker then none of the tokens are for the owner
+        if (num_tokens == 0) {
+            return parsing::pre_parse_action::valid_node;
+        }
+
         // Transfer any remaining up to the maximum count
         tokens.transfer(tokens.begin() + std::min(mx_count - 1, num_tokens - 1));
 
-- 
2.43.0


From 28ac1fae7c72b87f19e078e25c40ab21c9c608f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 07/28] fix: skip runtime disabled nodes before their value
 separator is checked

---
 include/arg_router/policy/runtime_enable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arg_router/policy/runtime_enable.hpp b/include/arg_router/policy/runtime_enable.hpp
index b7276f1..ad3042c 100644
--- a/include/arg_router/policy/runtime_enable.hpp
+++ b/include/arg_router/policy/runtime_enable.hpp
@@ -25,7 +25,7 @@ class runtime_enable
 {
 public:
     /** Policy priority. */
-    constexpr static auto priority = std::size_t{800};
+    constexpr static auto priority = std::size_t{1100};
 
     /** Constructor.
      *
-- 
2.43.0


From 87b22ac41abf2027ad8b9e93050b7496c121b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 08/28] fix: return the help string from the multi-language
 roots

---
 include/arg_router/multi_lang/root.hpp         | 2 +-
 include/arg_router/multi_lang/root_wrapper.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/multi_lang/root.hpp b/include/arg_router/multi_lang/root.hpp
index e76aaaa..c2c1d4a 100644
--- a/include/arg_router/multi_lang/root.hpp
+++ b/include/arg_router/multi_lang/root.hpp
@@ -194,7 +194,7 @@ public:
      */
     [[nodiscard]] string help() const
     {
-        return std::visit([](const auto& root) { root.help(); }, *root_);
+        return std::visit([](const auto& root) { return root.help(); }, *root_);
     }
 
 private:
diff --git a/include/arg_router/multi_lang/root_wrapper.hpp b/include/arg_router/multi_lang/root_wrapper.hpp
index 8a32fdd..db95f25 100644
--- a/include/arg_router/multi_lang/root_wrapper.hpp
+++ b/include/arg_router/multi_lang/root_wrapper.hpp
@@ -131,7 +131,7 @@ public:
      */
     [[nodiscard]] string help() const
     {
-        return std::visit([](const auto& root) { root.help(); }, *root_);
+        return std::visit([](const auto& root) { return root.help(); }, *root_);
     }
 
 private:
-- 
2.43.0


From 545170166f7694591bcf819ec5599e9482e07efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 09/28] fix: treat runtime disabled nodes as unknown when
 naming a help target

---
 include/arg_router/help.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/arg_router/help.hpp b/include/arg_router/help.hpp
index 409e7f4..4c50ebc 100644
--- a/include/arg_router/help.hpp
+++ b/include/arg_router/help.hpp
@@ -236,12 +236,6 @@ private:
                                  const Node& node,
                                  const TargetFn& fn)
     {
-        if constexpr (traits::has_runtime_enabled_method_v<Node>) {
-            if (!node.runtime_enabled()) {
-                throw multi_lang_exception{error_code::unknown_argument, tokens.front()};
-            }
-        }
-
         if (tokens.empty()) {
             fn(node);
             return;
@@ -256,6 +250,13 @@ private:
                     return;
                 }
 
+                // Runtime disabled nodes are invisible
+                if constexpr (traits::has_runtime_enabled_method_v<child_type>) {
+                    if (!child.runtime_enabled()) {
+                        return;
+                    }
+                }
+
                 // Help tokens aren't pre-parsed by the target nodes (as they would fail if missing
                 // any required value tokens), so we have just use the prefix to generate a
                 // token_type from them, as they all of a prefix_type of none
-- 
2.43.0


From 0029a534323b0be49f35e318e6c610baff9a6e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 10/28] fix: always make progress when a line is narrower than
 its first character

---
 include/arg_router/utility/utf8.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index a156882..58022cb 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -518,7 +518,11 @@ private:
             // Have we exceeded the terminal width?
             column += terminal_width(*it);
             if (column > max_columns_) {
-                if (line_break_column == 0) {
+                if (bytes == 0) {
+                    // Not even the first code point fits, but it has to be consumed otherwise there
+                    // would be no progress
+                    line_break_byte_ = (*it).size();
+                } else if (line_break_column == 0) {
                     // Oh dear, the line has no whitespace in it to break on, so force break on the
                     // last code point
                     line_break_byte_ = bytes;
-- 
2.43.0


From 0a202c83fcf7845ef5cb4a8c3610041c97b95f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 11/28] fix: report allocation failures whilst generating the
 help string

---
 include/arg_router/help.hpp | 6 ++++++
 include/arg_router/root.hpp | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/include/arg_router/help.hpp b/include/arg_router/help.hpp
index 4c50ebc..4d82d4b 100644
--- a/include/arg_router/help.hpp
+++ b/include/arg_router/help.hpp
@@ -205,7 +205,10 @@ public:
                     std::exit(EXIT_SUCCESS);
                 } else {
                     auto stream = ostringstream{};
+                    // Report failures to the caller rather than routing truncated output
+                    stream.exceptions(std::ios_base::badbit);
                     formatter_type::template generate_help<node_type, help_t, flatten>(stream, rhd);
+                    stream.exceptions(std::ios_base::goodbit);
                     this->routing_policy::routing_phase(std::move(stream));
                 }
             } else {
@@ -216,7 +219,10 @@ public:
                     std::exit(EXIT_SUCCESS);
                 } else {
                     auto stream = ostringstream{};
+                    // Report failures to the caller rather than routing truncated output
+                    stream.exceptions(std::ios_base::badbit);
                     formatter_type::template generate_help<node_type, help_t, flatten>(stream);
+                    stream.exceptions(std::ios_base::goodbit);
                     this->routing_policy::routing_phase(std::move(stream));
                 }
             }
diff --git a/include/arg_router/root.hpp b/include/arg_router/root.hpp
index 4b4e7bc..a1a1a4d 100644
--- a/include/arg_router/root.hpp
+++ b/include/arg_router/root.hpp
@@ -279,6 +279,8 @@ public:
     [[nodiscard]] string help() const
     {
         auto stream = ostringstream{};
+        // Report failures to the caller rather than returning truncated output
+        stream.exceptions(std::ios_base::badbit);
         help(stream);
 
         return stream.str();
-- 
2.43.0


From fb9cf5cdfafa1a127aa3b0b7c7522c9c7b95d52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 12/28] fix: do not indent root-level help labels in the colour
 formatter

---
 include/arg_router/policy/colour_help_formatter.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/policy/colour_help_formatter.hpp b/include/arg_router/policy/colour_help_formatter.hpp
index 1be3dbe..8c25873 100644
--- a/include/arg_router/policy/colour_help_formatter.hpp
+++ b/include/arg_router/policy/colour_help_formatter.hpp
@@ -86,7 +86,11 @@ public:
     {
         if (!help_data.label.empty()) {
             const auto indent = depth * Indent;
-            stream << red_colour << std::setw(indent) << ' ' << help_data.label;
+            stream << red_colour;
+            if (indent > 0) {
+                stream << std::setw(indent) << ' ';
+            }
+            stream << help_data.label;
 
             if (!help_data.description.empty()) {
                 const auto gap =
-- 
2.43.0


From 568caa5257f7c0e05305dc91e21d6773cd597477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 13/28] fix: do not let an alias set a runtime disabled node

---
 include/arg_router/policy/alias.hpp | 33 +++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/policy/alias.hpp b/include/arg_router/policy/alias.hpp
index 134dce0..9112395 100644
--- a/include/arg_router/policy/alias.hpp
+++ b/include/arg_router/policy/alias.hpp
@@ -113,6 +113,13 @@ public:
             }
         }
 
+        // If all the aliased nodes are runtime disabled, then there is nothing to alias
+        const auto& mode =
+            std::get<mode_data::index::value>(std::tuple{std::cref(parents)...}).get();
+        if (!any_target_enabled(mode)) {
+            return parsing::pre_parse_action::skip_node;
+        }
+
         // Attempt a transfer so we can guarantee that the original tokens are in the processed
         // container (this is a no-op if they already are)
         tokens.transfer(tokens.begin() + count);
@@ -125,6 +132,11 @@ public:
                 boost::mp11::mp_set_intersection<aliased_policies_type, policies_type>;
 
             if constexpr ((std::tuple_size_v<intersection>) > 0) {
+                // An alias must not resurrect a runtime disabled node
+                if (parsing::is_runtime_disabled(current, parents...)) {
+                    return;
+                }
+
                 auto target_tokens = vector<parsing::token_type>{};
                 target_tokens.reserve(count);
 
@@ -139,8 +151,6 @@ public:
                                        parents...});
             }
         };
-        const auto& mode =
-            std::get<mode_data::index::value>(std::tuple{std::cref(parents)...}).get();
         utility::tree_recursor(visitor, mode);
 
         // Now remove the original tokens as they refer to the aliased node
@@ -154,6 +164,25 @@ public:
     }
 
 private:
+    template <typename ModeType>
+    [[nodiscard]] static bool any_target_enabled(const ModeType& mode) noexcept
+    {
+        auto result = false;
+        utility::tree_recursor(
+            [&](const auto& current, const auto&... parents) {
+                using policies_type = typename std::decay_t<decltype(current)>::policies_type;
+                using intersection =
+                    boost::mp11::mp_set_intersection<aliased_policies_type, policies_type>;
+
+                if constexpr ((std::tuple_size_v<intersection>) > 0) {
+                    result = result || !parsing::is_runtime_disabled(current, parents...);
+                }
+            },
+            mode);
+
+        return result;
+    }
+
     template <typename T>
     struct policy_checker {
         constexpr static auto value =
-- 
2.43.0


From bbbedd8b2ebba99f8e7e77abd10325f5a0662c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 14/28] fix: follow an alias of an alias to the node it refers
 to

---
 include/arg_router/policy/alias.hpp | 65 ++++++++++++++---------------
 1 file changed, 31 insertions(+), 34 deletions(-)

diff --git a/include/arg_router/policy/alias.hpp b/include/arg_router/policy/alias.hpp
index 9112395..f4f72b8 100644
--- a/include/arg_router/policy/alias.hpp
+++ b/include/arg_router/policy/alias.hpp
@@ -116,7 +116,9 @@ public:
         // If all the aliased nodes are runtime disabled, then there is nothing to alias
         const auto& mode =
             std::get<mode_data::index::value>(std::tuple{std::cref(parents)...}).get();
-        if (!any_target_enabled(mode)) {
+        auto any_target = false;
+        visit_targets(mode, [&](const auto&...) { any_target = true; });
+        if (!any_target) {
             return parsing::pre_parse_action::skip_node;
         }
 
@@ -125,33 +127,15 @@ public:
         tokens.transfer(tokens.begin() + count);
 
         // Now do the runtime target building
-        const auto visitor = [&](const auto& current, [[maybe_unused]] const auto&... parents) {
-            using policies_type = typename std::decay_t<decltype(current)>::policies_type;
-
-            using intersection =
-                boost::mp11::mp_set_intersection<aliased_policies_type, policies_type>;
-
-            if constexpr ((std::tuple_size_v<intersection>) > 0) {
-                // An alias must not resurrect a runtime disabled node
-                if (parsing::is_runtime_disabled(current, parents...)) {
-                    return;
-                }
-
-                auto target_tokens = vector<parsing::token_type>{};
-                target_tokens.reserve(count);
-
-                auto value_it = tokens.begin();
-                for (auto j = 0u; j < count; ++j) {
-                    // Pre-increment the value iterator so we skip over the label token
-                    target_tokens.push_back(*(++value_it));
-                }
-
-                target.add_sub_target({std::move(target_tokens),  //
-                                       current,
-                                       parents...});
-            }
-        };
-        utility::tree_recursor(visitor, mode);
+        visit_targets(mode, [&](const auto& current, const auto&... parents) {
+            // Skip over the label token
+            const auto values = tokens.processed().begin() + 1;
+            auto target_tokens = vector<parsing::token_type>(values, values + count);
+
+            target.add_sub_target({std::move(target_tokens),  //
+                                   current,
+                                   parents...});
+        });
 
         // Now remove the original tokens as they refer to the aliased node
         tokens.processed().erase(tokens.processed().begin(),
@@ -164,10 +148,14 @@ public:
     }
 
 private:
-    template <typename ModeType>
-    [[nodiscard]] static bool any_target_enabled(const ModeType& mode) noexcept
+    template <typename...>
+    friend class alias_t;
+
+    // Calls fn with every enabled node (and its parents) referred to by AliasedPolicies, following
+    // any that are themselves aliases
+    template <typename ModeType, typename Fn>
+    static void visit_targets(const ModeType& mode, const Fn& fn)
     {
-        auto result = false;
         utility::tree_recursor(
             [&](const auto& current, const auto&... parents) {
                 using policies_type = typename std::decay_t<decltype(current)>::policies_type;
@@ -175,12 +163,21 @@ private:
                     boost::mp11::mp_set_intersection<aliased_policies_type, policies_type>;
 
                 if constexpr ((std::tuple_size_v<intersection>) > 0) {
-                    result = result || !parsing::is_runtime_disabled(current, parents...);
+                    // An alias must not resurrect a runtime disabled node
+                    if (parsing::is_runtime_disabled(current, parents...)) {
+                        return;
+                    }
+
+                    constexpr auto alias_index =
+                        algorithm::find_specialisation_v<alias_t, policies_type>;
+                    if constexpr (alias_index < std::tuple_size_v<policies_type>) {
+                        std::tuple_element_t<alias_index, policies_type>::visit_targets(mode, fn);
+                    } else {
+                        fn(current, parents...);
+                    }
                 }
             },
             mode);
-
-        return result;
     }
 
     template <typename T>
-- 
2.43.0


From ec6418cd36f4e4b11a612121da01d4a2d3ca2858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:23 +0000
Subject: [PATCH 15/28] fix: do not match a runtime disabled anonymous mode

---
 include/arg_router/mode.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/arg_router/mode.hpp b/include/arg_router/mode.hpp
index 495f6ca..3106f09 100644
--- a/include/arg_router/mode.hpp
+++ b/include/arg_router/mode.hpp
@@ -271,6 +271,10 @@ private:
                     return match;
                 }
             }
+        } else if (parsing::is_runtime_disabled(this_mode, parents...)) {
+            // There is no label to match when anonymous, so the pre-parse phases of the policies are
+            // never used and the runtime state has to be checked here
+            return {};
         }
 
         if (!pre_parse_data.validator()(this_mode, parents...)) {
-- 
2.43.0


From 60f67e8e2a9bdeb73f2e7b2a3ab5b48f6d508555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 16/28] fix: do not validate the value of a runtime disabled
 node

---
 include/arg_router/mode.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/arg_router/mode.hpp b/include/arg_router/mode.hpp
index 3106f09..cca4629 100644
--- a/include/arg_router/mode.hpp
+++ b/include/arg_router/mode.hpp
@@ -515,6 +515,12 @@ private:
             result = ValueType{};
         }
 
+        // A runtime disabled node cannot be given a value by the user, so there is nothing to
+        // validate
+        if (parsing::is_runtime_disabled(child)) {
+            return;
+        }
+
         // Irritatingly, we have to run the validation phase on the new value
         utility::tuple_type_iterator<typename ChildType::policies_type>([&](auto i) {
             using policy_type = std::tuple_element_t<i, typename ChildType::policies_type>;
@@ -541,6 +547,12 @@ private:
 
                 if constexpr (!is_skip_tag_v<optional_result_type> && msv) {
                     using result_type = typename optional_result_type::value_type;
+
+                    // As above, there is nothing to validate for a runtime disabled node
+                    if (parsing::is_runtime_disabled(child)) {
+                        return;
+                    }
+
                     const auto& result = *std::get<i>(results);
 
                     utility::tuple_type_iterator<child_policies_type>([&](auto j) {
-- 
2.43.0


From 4947300a429b0c7f2e2a8fcfabed723e828bb9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 17/28] fix: accept a lone short prefix token without expanding
 it

A bare '-' parsed as a short form token with an empty name, and reserving (size - 1)
elements for its expansion threw std::length_error out of parse().
---
 include/arg_router/policy/short_form_expander.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/arg_router/policy/short_form_expander.hpp b/include/arg_router/policy/short_form_expander.hpp
index d3ffa80..861093f 100644
--- a/include/arg_router/policy/short_form_expander.hpp
+++ b/include/arg_router/policy/short_form_expander.hpp
@@ -88,7 +88,8 @@ public:
         }
 
         // Exit early if there's no expansion to be done
-        if (first_token.name.size() == owner_type::short_name().size()) {
+        if (first_token.name.empty() ||
+            (first_token.name.size() == owner_type::short_name().size())) {
             return parsing::pre_parse_action::valid_node;
         }
 
-- 
2.43.0


From 8c333cd784c6d9f2c28b62811346249b106fbff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:16 +0000
Subject: [PATCH 18/28] fix: keep the zero digits of compile time converted
 integers

Every zero that followed the leading digit was dropped, so help showed '<1-10>' for
a maximum value of 100.
---
 .../arg_router/utility/compile_time_string.hpp   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/arg_router/utility/compile_time_string.hpp b/include/arg_router/utility/compile_time_string.hpp
index 4302b3a..1664252 100644
--- a/include/arg_router/utility/compile_time_string.hpp
+++ b/include/arg_router/utility/compile_time_string.hpp
@@ -242,10 +242,9 @@ struct convert_integral_to_cts {
 private:
     static_assert(std::is_integral_v<decltype(Value)>, "Value must be an integral");
 
-    template <typename Str, auto NewValue>
+    template <typename Str, auto NewValue, auto num_digits>
     [[nodiscard]] constexpr static auto build() noexcept
     {
-        constexpr auto num_digits = math::num_digits(NewValue);
         constexpr auto power10 = math::pow<10>(num_digits - 1);
         constexpr auto digit = NewValue / power10;
 
@@ -253,13 +252,14 @@ private:
 
         if constexpr (num_digits != 1) {
             constexpr auto next_value = NewValue % power10;
-            return build<typename Str::template append_t<digit_str>, next_value>();
+            return build<typename Str::template append_t<digit_str>, next_value, num_digits - 1>();
         } else {
             return typename Str::template append_t<digit_str>{};
         }
     }
 
-    using digit_str = decltype(build<str<>, math::abs(Value)>());
+    using digit_str =
+        decltype(build<str<>, math::abs(Value), math::num_digits(math::abs(Value))>());
 
 public:
     using type = std::conditional_t<(Value < 0), str<'-'>::template append_t<digit_str>, digit_str>;
@@ -452,10 +452,9 @@ struct convert_integral_to_cts {
 private:
     static_assert(std::is_integral_v<decltype(Value)>, "Value must be an integral");
 
-    template <typename Str, auto NewValue>
+    template <typename Str, auto NewValue, auto num_digits>
     [[nodiscard]] constexpr static auto build() noexcept
     {
-        constexpr auto num_digits = math::num_digits(NewValue);
         constexpr auto power10 = math::pow<10>(num_digits - 1);
         constexpr auto digit = NewValue / power10;
 
@@ -463,13 +462,14 @@ private:
 
         if constexpr (num_digits != 1) {
             constexpr auto next_value = NewValue % power10;
-            return build<digit_str, next_value>();
+            return build<digit_str, next_value, num_digits - 1>();
         } else {
             return digit_str{};
         }
     }
 
-    using digit_str = decltype(build<compile_time_string<>, math::abs(Value)>());
+    using digit_str = decltype(
+        build<compile_time_string<>, math::abs(Value), math::num_digits(math::abs(Value))>());
 
 public:
     using type = std::conditional_t<(Value < 0),
-- 
2.43.0


From e17b8a111d075961938ff6a276378225d5dd0baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:54 +0000
Subject: [PATCH 19/28] fix: do not store the result of a routed node

A root level node's value was boxed after its router had been called, so an allocation
failure there threw out of parse() although the command line had been routed.
---
 include/arg_router/parsing/parse_target.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/arg_router/parsing/parse_target.hpp b/include/arg_router/parsing/parse_target.hpp
index 5139e7f..53aacb5 100644
--- a/include/arg_router/parsing/parse_target.hpp
+++ b/include/arg_router/parsing/parse_target.hpp
@@ -15,6 +15,12 @@
 
 namespace arg_router
 {
+namespace policy
+{
+template <typename T>
+struct has_routing_phase_method;
+}  // namespace policy
+
 namespace parsing
 {
 /** A parse target i.e. a target node optionally with tokens for parsing.
@@ -43,9 +49,15 @@ public:
     {
         static_assert(is_tree_node_v<Node>, "Target must be a tree_node");
 
+        // A routed node's result has already been delivered, so it must not be stored (which may
+        // throw) after its router has been called
+        constexpr auto has_router = !std::is_void_v<
+            typename Node::template phase_finder_t<policy::has_routing_phase_method>>;
+
         parse_ = [&node, &parents...](parse_target target) -> utility::unsafe_any {
-            if constexpr (std::is_void_v<decltype(node.parse(std::move(target), parents...))>) {
-                node.parse(std::move(target), parents...);
+            if constexpr (has_router ||
+                          std::is_void_v<decltype(node.parse(std::move(target), parents...))>) {
+                static_cast<void>(node.parse(std::move(target), parents...));
                 return {};
             } else {
                 return node.parse(std::move(target), parents...);
-- 
2.43.0


From 5c2fe0923c1948087dc2f5920e951d4f33688b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:23 +0000
Subject: [PATCH 20/28] fix: parse character-sized integer arguments as numbers

---
 include/arg_router/parsing/global_parser.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/arg_router/parsing/global_parser.hpp b/include/arg_router/parsing/global_parser.hpp
index 75bcea4..e68dedd 100644
--- a/include/arg_router/parsing/global_parser.hpp
+++ b/include/arg_router/parsing/global_parser.hpp
@@ -10,6 +10,8 @@
 
 #include <boost/lexical_cast/try_lexical_convert.hpp>
 
+#include <limits>
+
 namespace arg_router
 {
 /** Global parsing struct.
@@ -39,6 +41,17 @@ struct parser<T, typename std::enable_if_t<std::is_arithmetic_v<T>>> {
         using namespace utility::string_view_ops;
         using namespace std::string_view_literals;
 
+        // The conversion takes the character-sized integers as characters, so go via a wider type
+        if constexpr (std::is_same_v<T, signed char> || std::is_same_v<T, unsigned char>) {
+            const auto wide = parser<int>::parse(token);
+            if ((wide < std::numeric_limits<T>::min()) || (wide > std::numeric_limits<T>::max())) {
+                throw multi_lang_exception{error_code::failed_to_parse,
+                                           parsing::token_type{parsing::prefix_type::none, token}};
+            }
+
+            return static_cast<T>(wide);
+        }
+
         auto result = T{};
         if (!boost::conversion::try_lexical_convert(token, result)) {
             throw multi_lang_exception{error_code::failed_to_parse,
-- 
2.43.0


From 2cb589fd3e92bfc75a5e4148b9828f549c152f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:23 +0000
Subject: [PATCH 21/28] fix: reject a negative number for an unsigned argument

---
 include/arg_router/parsing/global_parser.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/arg_router/parsing/global_parser.hpp b/include/arg_router/parsing/global_parser.hpp
index e68dedd..a352629 100644
--- a/include/arg_router/parsing/global_parser.hpp
+++ b/include/arg_router/parsing/global_parser.hpp
@@ -58,6 +58,14 @@ struct parser<T, typename std::enable_if_t<std::is_arithmetic_v<T>>> {
                                        parsing::token_type{parsing::prefix_type::none, token}};
         }
 
+        // The conversion wraps a negative number around when the type is unsigned
+        if constexpr (std::is_unsigned_v<T>) {
+            if ((token.front() == '-') && (result != T{0})) {
+                throw multi_lang_exception{error_code::failed_to_parse,
+                                           parsing::token_type{parsing::prefix_type::none, token}};
+            }
+        }
+
         return result;
     }
 };
-- 
2.43.0


From f746bf2a606de63a3fd596e815b8bd02e991097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:40 +0000
Subject: [PATCH 22/28] fix: compare a value with its limits without converting
 it to their type

The default comparator of the run-time limits converted the parsed value to
the type of the limits, so 4294967296 or 10.5 passed max_value(10), and limits
of the other signedness were compared after wrapping around.
---
 include/arg_router/policy/min_max_value.hpp | 58 +++++++++++++++++++--
 1 file changed, 54 insertions(+), 4 deletions(-)

diff --git a/include/arg_router/policy/min_max_value.hpp b/include/arg_router/policy/min_max_value.hpp
index 5b21d3c..dfd4faa 100644
--- a/include/arg_router/policy/min_max_value.hpp
+++ b/include/arg_router/policy/min_max_value.hpp
@@ -12,6 +12,33 @@
 
 namespace arg_router::policy
 {
+namespace detail
+{
+/** Less-than for a value and a limit that may be of different arithmetic types, compares what they
+ * represent i.e. does not convert one of them to a type that cannot hold it.
+ *
+ * @tparam Lhs Left hand side type
+ * @tparam Rhs Right hand side type
+ * @param lhs Left hand side
+ * @param rhs Right hand side
+ * @return True if @a lhs is less than @a rhs
+ */
+template <typename Lhs, typename Rhs>
+[[nodiscard]] constexpr bool limit_less(const Lhs& lhs, const Rhs& rhs)
+{
+    if constexpr (std::is_integral_v<Lhs> && std::is_integral_v<Rhs> &&
+                  (std::is_signed_v<Lhs> != std::is_signed_v<Rhs>)) {
+        if constexpr (std::is_signed_v<Lhs>) {
+            return (lhs < 0) || (static_cast<std::make_unsigned_t<Lhs>>(lhs) < rhs);
+        } else {
+            return (rhs > 0) && (lhs < static_cast<std::make_unsigned_t<Rhs>>(rhs));
+        }
+    } else {
+        return lhs < rhs;
+    }
+}
+}  // namespace detail
+
 /** Provides inclusive minimum and maximum values for a parsed value.
  *
  * By default <TT>operator\<</TT> is used for comparisons, but can be overridden.
@@ -67,17 +94,29 @@ public:
 
         using node_type = boost::mp11::mp_first<std::tuple<Parents...>>;
 
-        if (min_ && comp_(value, *min_)) {
+        if (min_ && less(value, *min_)) {
             throw multi_lang_exception{error_code::minimum_value_not_reached,
                                        parsing::node_token_type<node_type>()};
         }
-        if (max_ && comp_(*max_, value)) {
+        if (max_ && less(*max_, value)) {
             throw multi_lang_exception{error_code::maximum_value_exceeded,
                                        parsing::node_token_type<node_type>()};
         }
     }
 
 private:
+    template <typename Lhs, typename Rhs>
+    [[nodiscard]] constexpr bool less(const Lhs& lhs, const Rhs& rhs) const
+    {
+        // The default comparator would convert the parsed value to the type of the limits
+        if constexpr (std::is_same_v<less_than_compare, std::less<value_type>> &&
+                      std::is_arithmetic_v<Lhs> && std::is_arithmetic_v<Rhs>) {
+            return detail::limit_less(lhs, rhs);
+        } else {
+            return comp_(lhs, rhs);
+        }
+    }
+
     std::optional<value_type> min_;
     std::optional<value_type> max_;
     less_than_compare comp_;
@@ -169,18 +208,29 @@ public:
         using node_type = boost::mp11::mp_first<std::tuple<Parents...>>;
 
         if constexpr (!std::is_void_v<MinType>) {
-            if (value < minimum_value()) {
+            if (detail::limit_less(value, minimum_value())) {
                 throw multi_lang_exception{error_code::minimum_value_not_reached,
                                            parsing::node_token_type<node_type>()};
             }
         }
         if constexpr (!std::is_void_v<MaxType>) {
-            if (value > maximum_value()) {
+            if (above_maximum(value)) {
                 throw multi_lang_exception{error_code::maximum_value_exceeded,
                                            parsing::node_token_type<node_type>()};
             }
         }
     }
+
+private:
+    template <typename InputValueType>
+    [[nodiscard]] constexpr static bool above_maximum(const InputValueType& value)
+    {
+        if constexpr (std::is_integral_v<InputValueType>) {
+            return detail::limit_less(maximum_value(), value);
+        } else {
+            return value > maximum_value();
+        }
+    }
 };
 
 /** Constructs a min_max_value_t with the given params.
-- 
2.43.0


From 8ce54cf63b2a718675c8209ee16433b02e66c49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:29 +0000
Subject: [PATCH 23/28] fix: keep every entry of a translation file when
 generating its header

A square bracket or a trailing backslash merged the following lines into one
entry, and anything after the last error code left a trailing comma in the
generated tuple.
---
 .../translation_generator_script.cmake        | 50 ++++++++++---------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/cmake/translation_generator/translation_generator_script.cmake b/cmake/translation_generator/translation_generator_script.cmake
index 4470fba..685e6b6 100644
--- a/cmake/translation_generator/translation_generator_script.cmake
+++ b/cmake/translation_generator/translation_generator_script.cmake
@@ -29,18 +29,24 @@ public:
     # Write the header
     set(output_data "${${ARGS_OUTPUT_VAR}}${header}")
     set(error_code_section FALSE)
-
-    cmake_policy(PUSH)
-    cmake_policy(SET CMP0007 NEW)
-
-    # CMake ranges are inclusive for some reason, so we need to decrement the array length before
-    # using in the for-loop
-    file(STRINGS "${ARGS_SOURCE}" lines ENCODING UTF-8)
-    list(LENGTH lines num_lines_over)
-    math(EXPR num_lines "${num_lines_over}-1")
-
-    foreach(line_index RANGE ${num_lines})
-        list(GET lines ${line_index} line)
+    set(error_code_separator "")
+
+    # Don't read the lines into a list, as square brackets and a trailing backslash are special in
+    # those.  A UTF-8 byte order mark and carriage returns are not part of the content
+    file(READ "${ARGS_SOURCE}" lines)
+    string(ASCII 239 187 191 byte_order_mark)
+    string(REGEX REPLACE "^${byte_order_mark}" "" lines "${lines}")
+    string(REPLACE "\r" "" lines "${lines}")
+
+    while (NOT lines STREQUAL "")
+        string(FIND "${lines}" "\n" line_end)
+        string(SUBSTRING "${lines}" 0 ${line_end} line)
+        if (line_end EQUAL -1)
+            set(lines "")
+        else()
+            math(EXPR line_end "${line_end}+1")
+            string(SUBSTRING "${lines}" ${line_end} -1 lines)
+        endif()
 
         # Skip comment lines
         string(SUBSTRING "${line}" 0 1 first_char)
@@ -68,24 +74,22 @@ public:
 
         # Process the entry data
         if (error_code_section)
-            set(output_line "        std::pair<traits::integral_constant<error_code::${key}>, ${value_str}>")
-            # Don't append a comma if this is the last tuple entry, won't compile in C++
-            if (line_index EQUAL num_lines)
-                string(APPEND output_line "\n")
-            else()
-                string(APPEND output_line ",\n")
-            endif()
-            string(APPEND output_data "${output_line}")
+            # The separating comma goes in front of the next entry, as a comma after the last one won't
+            # compile in C++
+            string(APPEND output_data "${error_code_separator}"
+                   "        std::pair<traits::integral_constant<error_code::${key}>, ${value_str}>")
+            set(error_code_separator ",\n")
         else()
             set(output_line "    using ${key} = ${value_str};\n")
             string(APPEND output_data "${output_line}")
         endif()
-    endforeach()
-
-    cmake_policy(POP)
+    endwhile()
 
     # Write the footer and finish
     if (error_code_section)
+        if (NOT error_code_separator STREQUAL "")
+            string(APPEND output_data "\n")
+        endif()
         string(APPEND output_data "${error_code_footer}")
     endif()
     string(APPEND output_data "${footer}")
-- 
2.43.0


From 39bcf734645e15ada65e1f546b70bfee092501ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:29 +0000
Subject: [PATCH 24/28] fix: report a translation header that could not be
 written completely

---
 .../translation_generator_script.cmake                     | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmake/translation_generator/translation_generator_script.cmake b/cmake/translation_generator/translation_generator_script.cmake
index 685e6b6..55474c8 100644
--- a/cmake/translation_generator/translation_generator_script.cmake
+++ b/cmake/translation_generator/translation_generator_script.cmake
@@ -135,4 +135,11 @@ foreach(source ${SOURCES})
         message(STATUS "Generated ${language_id} translation file")
         file(WRITE "${output_file}" "${output_data}")
     endif()
+
+    # A failed write, e.g. due to a full disk, is not reported by file(WRITE)
+    file(READ "${output_file}" existing_data)
+    if (NOT "${existing_data}" STREQUAL "${output_data}")
+        file(REMOVE "${output_file}")
+        message(FATAL_ERROR "Failed to write: ${output_file}")
+    endif()
 endforeach()
-- 
2.43.0


From 0f31c35d572c061ea45e542f4eba5bb1a8c4355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:33 +0000
Subject: [PATCH 25/28] fix: allow a line break after a space before quotes,
 hyphens and ellipses

A description made of quoted words or lone hyphens was kept on one line
however narrow the terminal, as the rules that only look at the next class
were applied after spaces too (rule LB18 of UAX 14 comes before them).
---
 .../arg_router/utility/utf8/line_break.hpp    | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/include/arg_router/utility/utf8/line_break.hpp b/include/arg_router/utility/utf8/line_break.hpp
index f9c3c97..abbefca 100644
--- a/include/arg_router/utility/utf8/line_break.hpp
+++ b/include/arg_router/utility/utf8/line_break.hpp
@@ -300,6 +300,25 @@ template <std::size_t N>
     return false;
 }
 
+/** Rule LB18, break after spaces.
+ *
+ * Unlike the other rules this allows a break, so the following rules that only look at the next
+ * class must not apply when this does.
+ *
+ * From https://www.unicode.org/reports/tr14/#Algorithm.
+ * @tparam N Size of trailing window
+ * @param trailing_window Trailing window of properties, the zeroth index is the 'current' class
+ * begin iterated over
+ * @return True if a break is allowed whatever the next class
+ */
+template <std::size_t N>
+[[nodiscard]] constexpr bool LB18(
+    const std::array<line_break_class, N>& trailing_window) noexcept
+{
+    static_assert(N > 0, "Trailing window must be at least 1 element");
+    return trailing_window[0] == line_break_class::SP;
+}
+
 /** Rule LB19, do not break before or after quotation marks, such as ‘”’.
  *
  * From https://www.unicode.org/reports/tr14/#Algorithm.
@@ -314,7 +333,7 @@ template <std::size_t N>
                                   line_break_class next_class) noexcept
 {
     static_assert(N > 0, "Trailing window must be at least 1 element");
-    return (next_class == line_break_class::QU) ||  //
+    return ((next_class == line_break_class::QU) && !LB18(trailing_window)) ||  //
            (trailing_window[0] == line_break_class::QU);
 }
 
@@ -333,9 +352,10 @@ template <std::size_t N>
                                   line_break_class next_class) noexcept
 {
     static_assert(N > 0, "Trailing window must be at least 1 element");
-    return (next_class == line_break_class::BA) ||  //
-           (next_class == line_break_class::HY) ||  //
-           (next_class == line_break_class::NS) ||  //
+    return (((next_class == line_break_class::BA) ||  //
+             (next_class == line_break_class::HY) ||  //
+             (next_class == line_break_class::NS)) &&
+            !LB18(trailing_window)) ||  //
            (trailing_window[0] == line_break_class::BB);
 }
 
@@ -386,11 +406,11 @@ template <std::size_t N>
  * @return True if you should not break between these break classes
  */
 template <std::size_t N>
-[[nodiscard]] constexpr bool LB22(
-    [[maybe_unused]] const std::array<line_break_class, N>& trailing_window,
-    line_break_class next_class) noexcept
+[[nodiscard]] constexpr bool LB22(const std::array<line_break_class, N>& trailing_window,
+                                  line_break_class next_class) noexcept
 {
-    return next_class == line_break_class::IN_;
+    static_assert(N > 0, "Trailing window must be at least 1 element");
+    return (next_class == line_break_class::IN_) && !LB18(trailing_window);
 }
 
 /** Rule LB23, do not break between digits and letters.
-- 
2.43.0


From 70035cbc36bcd75fe8f8e84d5119b57edf3baa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:27 +0000
Subject: [PATCH 26/28] fix: keep combining marks with their base character
 when breaking lines

A line break was allowed between a character and the marks attached to it,
so a wrapped description could lose the accent of a word's letter to the
next line (rules LB9 and LB10 of UAX 14).  What was read beyond the end of
a line also took part in the decisions for the next one.
---
 include/arg_router/utility/utf8.hpp | 36 ++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/include/arg_router/utility/utf8.hpp b/include/arg_router/utility/utf8.hpp
index 58022cb..d21c420 100644
--- a/include/arg_router/utility/utf8.hpp
+++ b/include/arg_router/utility/utf8.hpp
@@ -450,6 +450,21 @@ private:
         return result;
     }
 
+    // True if a combining mark may be attached to the last character
+    [[nodiscard]] constexpr bool attachable() const noexcept
+    {
+        switch (trailing_window_.front()) {
+        case line_break_class::any:
+        case line_break_class::BK:
+        case line_break_class::CR:
+        case line_break_class::LF:
+        case line_break_class::NL:
+        case line_break_class::SP:
+        case line_break_class::ZW: return false;
+        default: return true;
+        }
+    }
+
     [[nodiscard]] constexpr bool should_break(line_break_class next_class) noexcept
     {
         for (auto rule : no_break_rules::line_break<trailing_window_size>) {
@@ -506,6 +521,9 @@ private:
             if (str_.empty()) {
                 return;
             }
+
+            // The previous line was read beyond its end
+            fill_trailing_window();
         }
 
         // Iterate over the code points until you reach or exceed the column limit, setting the
@@ -540,8 +558,17 @@ private:
                 continue;
             }
 
-            rotate_trailing_window();
-            trailing_window_.front() = extract_class(*this_cp);
+            // A combining mark takes the class of the character it is attached to (rule LB9), or is
+            // treated as a letter if there is no such character (rule LB10)
+            auto this_break_class = extract_class(*this_cp);
+            const auto attached = (this_break_class == line_break_class::CM) && attachable();
+            if (!attached) {
+                if (this_break_class == line_break_class::CM) {
+                    this_break_class = line_break_class::AL;
+                }
+                rotate_trailing_window();
+                trailing_window_.front() = this_break_class;
+            }
 
             // If there is a following code point, use it to update the next_break_class
             auto next_break_class = line_break_class::any;
@@ -556,7 +583,10 @@ private:
                 }
             }
 
-            if (should_break(next_break_class)) {
+            const auto attaches_next = ((next_break_class == line_break_class::CM) ||
+                                        (next_break_class == line_break_class::ZWJ)) &&
+                                       attachable();
+            if (!attaches_next && should_break(next_break_class)) {
                 line_break_column = column;
                 line_break_byte = bytes;
             }
-- 
2.43.0


From bd7413d3a8bb4794d2883394cdd0154c99656391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:40 +0000
Subject: [PATCH 27/28] fix: convert numbers without a stream allocating from
 the global heap

The lexical conversion of a string view goes through a std::ostringstream,
which takes a buffer from the global heap for tokens of more than 15
characters whatever the configured allocator is.  A character range is
converted in place.
---
 include/arg_router/parsing/global_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arg_router/parsing/global_parser.hpp b/include/arg_router/parsing/global_parser.hpp
index a352629..f6cb531 100644
--- a/include/arg_router/parsing/global_parser.hpp
+++ b/include/arg_router/parsing/global_parser.hpp
@@ -53,7 +53,7 @@ struct parser<T, typename std::enable_if_t<std::is_arithmetic_v<T>>> {
         }
 
         auto result = T{};
-        if (!boost::conversion::try_lexical_convert(token, result)) {
+        if (!boost::conversion::try_lexical_convert(token.data(), token.size(), result)) {
             throw multi_lang_exception{error_code::failed_to_parse,
                                        parsing::token_type{parsing::prefix_type::none, token}};
         }
-- 
2.43.0


From e215d9b515545046512a80759674294290d3dd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:32 +0000
Subject: [PATCH 28/28] fix: pad help text with spaces whatever fill character
 the stream has

---
 .../policy/colour_help_formatter.hpp           | 18 +++++++++++++-----
 .../policy/default_help_formatter.hpp          |  5 +++--
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/arg_router/policy/colour_help_formatter.hpp b/include/arg_router/policy/colour_help_formatter.hpp
index 8c25873..677067c 100644
--- a/include/arg_router/policy/colour_help_formatter.hpp
+++ b/include/arg_router/policy/colour_help_formatter.hpp
@@ -87,9 +87,7 @@ public:
         if (!help_data.label.empty()) {
             const auto indent = depth * Indent;
             stream << red_colour;
-            if (indent > 0) {
-                stream << std::setw(indent) << ' ';
-            }
+            set_gap(stream, indent);
             stream << help_data.label;
 
             if (!help_data.description.empty()) {
@@ -97,7 +95,8 @@ public:
                     desc_start - indent - utility::utf8::terminal_width(help_data.label);
 
                 // Spacing between the end of the args label and start of description
-                stream << green_colour << std::setw(gap) << ' ';
+                stream << green_colour;
+                set_gap(stream, gap);
 
                 // Print the description, breaking if a word will exceed the terminal width
                 for (auto it =
@@ -107,7 +106,8 @@ public:
 
                     // If there's more data to follow, then add the offset
                     if (++it != utility::utf8::line_iterator{}) {
-                        stream << '\n' << std::setw(desc_start) << ' ';
+                        stream << '\n';
+                        set_gap(stream, desc_start);
                     }
                 }
             }
@@ -122,6 +122,14 @@ private:
     {
         return Depth * Indent;
     }
+
+    static void set_gap(std::ostream& stream, std::size_t num_chars)
+    {
+        // Don't use std::setw, as that fills the gap with whatever fill character the stream has
+        for (; num_chars > 0; --num_chars) {
+            stream << ' ';
+        }
+    }
 };
 }  // namespace help_formatter_component
 
diff --git a/include/arg_router/policy/default_help_formatter.hpp b/include/arg_router/policy/default_help_formatter.hpp
index 6e91d37..74e5c89 100644
--- a/include/arg_router/policy/default_help_formatter.hpp
+++ b/include/arg_router/policy/default_help_formatter.hpp
@@ -135,8 +135,9 @@ private:
 
     static void set_gap(std::ostream& stream, std::size_t num_chars)
     {
-        if (num_chars > 0) {
-            stream << std::setw(num_chars) << ' ';
+        // Don't use std::setw, as that fills the gap with whatever fill character the stream has
+        for (; num_chars > 0; --num_chars) {
+            stream << ' ';
         }
     }
 };
-- 
2.43.0

