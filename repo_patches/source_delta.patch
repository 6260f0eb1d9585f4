From 5911076a30d802e123cb9cd081792a0b1dc7f7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 01/53] fix: keep the address of signatures with large arity
 stable

Signatures with an arity above 2^16-2 refer to a pair stored in a hash set
by address, but the set moves its elements when it is rehashed. Afterwards,
equal signatures compared unequal and pointed to freed memory.
---
 libgringo/src/symbol.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libgringo/src/symbol.cc b/libgringo/src/symbol.cc
index 0da667d..c78a417 100644
--- a/libgringo/src/symbol.cc
+++ b/libgringo/src/symbol.cc
@@ -27,6 +27,7 @@
 #include <gringo/hash_set.hh>
 #include <gringo/symbol.hh>
 #include <iterator>
+#include <memory>
 #include <mutex>
 
 #ifdef _MSC_VER
@@ -122,20 +123,21 @@ class MSig {
         }
     };
 
-    explicit MSig(Cons const &cons, size_t hash) : sig_{cons.first, cons.second}, hash_{hash} {}
+    explicit MSig(Cons const &cons, size_t hash) : sig_{std::make_unique<Cons>(cons)}, hash_{hash} {}
 
-    Cons const &as_sig() const { return sig_; }
+    Cons const &as_sig() const { return *sig_; }
 
   private:
-    static String name(MSig const &a) { return a.sig_.first; }
+    static String name(MSig const &a) { return a.sig_->first; }
 
     static String name(Cons const &a) { return a.first; }
 
-    static uint32_t arity(MSig const &a) { return a.sig_.second; }
+    static uint32_t arity(MSig const &a) { return a.sig_->second; }
 
     static uint32_t arity(Cons const &a) { return a.second; }
 
-    std::pair<String, uint32_t> sig_;
+    // NOTE: signatures refer to the pair by address, which must not change when the set is rehashed
+    std::unique_ptr<Cons> sig_;
     size_t hash_;
 };
 
-- 
2.43.0


From a248d4a8f88ce0c18a5a54e1b22481d1a869b509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:17 +0000
Subject: [PATCH 02/53] fix: modulo by zero in parse_term is undefined instead
 of a crash

---
 libgringo/src/input/groundtermparser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgringo/src/input/groundtermparser.cc b/libgringo/src/input/groundtermparser.cc
index ae6667a..438b04f 100644
--- a/libgringo/src/input/groundtermparser.cc
+++ b/libgringo/src/input/groundtermparser.cc
@@ -42,7 +42,7 @@ Symbol GroundTermParser::parse(std::string const &str, Logger &log) {
 }
 
 Symbol GroundTermParser::term(BinOp op, Symbol a, Symbol b) {
-    if (a.type() == SymbolType::Num && b.type() == SymbolType::Num && (op != BinOp::DIV || b.num() != 0)) {
+    if (a.type() == SymbolType::Num && b.type() == SymbolType::Num && ((op != BinOp::DIV && op != BinOp::MOD) || b.num() != 0)) {
         return Symbol::createNum(Gringo::eval(op, a.num(), b.num()));
     }
     undefined_ = true;
-- 
2.43.0


From 216c1dd579ab5a3e658ab13f3f7bc398f546a6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:17 +0000
Subject: [PATCH 03/53] fix: accept the digit 0 in octal numbers

---
 libgringo/src/input/groundtermlexer.xh | 2 +-
 libgringo/src/input/nongroundlexer.xch | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libgringo/src/input/groundtermlexer.xh b/libgringo/src/input/groundtermlexer.xh
index 41e37f3..2a5fb63 100644
--- a/libgringo/src/input/groundtermlexer.xh
+++ b/libgringo/src/input/groundtermlexer.xh
@@ -32,7 +32,7 @@
 /*!re2c
     DEC        = "0"|([1-9][0-9]*);
     HEX        = "0x"([0-9A-Fa-f]+);
-    OCT        = "0o"([1-7]+);
+    OCT        = "0o"([0-7]+);
     BIN        = "0b"([0-1]+);
     NUMBER     = DEC | HEX | OCT | BIN;
     ANY        = [\000-\377];
diff --git a/libgringo/src/input/nongroundlexer.xch b/libgringo/src/input/nongroundlexer.xch
index af5ae76..96bdc3c 100644
--- a/libgringo/src/input/nongroundlexer.xch
+++ b/libgringo/src/input/nongroundlexer.xch
@@ -37,7 +37,7 @@
 
     DEC        = "0"|([1-9][0-9]*);
     HEX        = "0x"([0-9A-Fa-f]+);
-    OCT        = "0o"([1-7]+);
+    OCT        = "0o"([0-7]+);
     BIN        = "0b"([0-1]+);
     NUMBER     = DEC | HEX | OCT | BIN;
     ANY        = [\000-\377];
-- 
2.43.0


From bef2489b69b7f93491f6f72d9604705ce8985360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 04/53] fix: index handling when setting and inserting elements
 of AST sequences

---
 libpyclingo/clingo/ast.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/ast.py b/libpyclingo/clingo/ast.py
index bd02538..5223024 100644
--- a/libpyclingo/clingo/ast.py
+++ b/libpyclingo/clingo/ast.py
@@ -757,6 +757,11 @@ class ASTSequence(abc.MutableSequence):
     def __setitem__(self, index, ast):
         if isinstance(index, slice):
             raise TypeError("slicing not implemented")
+        size = len(self)
+        if index < 0:
+            index += size
+        if index < 0 or index >= size:
+            raise IndexError("invalid index")
         _handle_error(
             _lib.clingo_ast_attribute_set_ast_at(
                 self._rep, self._attribute, index, ast._rep
@@ -776,6 +781,10 @@ class ASTSequence(abc.MutableSequence):
         )
 
     def insert(self, index, value):
+        size = len(self)
+        if index < 0:
+            index = max(index + size, 0)
+        index = min(index, size)
         _handle_error(
             _lib.clingo_ast_attribute_insert_ast_at(
                 self._rep, self._attribute, index, value._rep
@@ -850,8 +859,13 @@ class StrSequence(abc.MutableSequence):
     def __setitem__(self, index, value):
         if isinstance(index, slice):
             raise TypeError("slicing not implemented")
+        size = len(self)
+        if index < 0:
+            index += size
+        if index < 0 or index >= size:
+            raise IndexError("invalid index")
         _handle_error(
-            _lib.clingo_str_attribute_set_string_at(
+            _lib.clingo_ast_attribute_set_string_at(
                 self._rep, self._attribute, index, value.encode()
             )
         )
@@ -871,6 +885,10 @@ class StrSequence(abc.MutableSequence):
         )
 
     def insert(self, index, value):
+        size = len(self)
+        if index < 0:
+            index = max(index + size, 0)
+        index = min(index, size)
         _handle_error(
             _lib.clingo_ast_attribute_insert_string_at(
                 self._rep, self._attribute, index, value.encode()
-- 
2.43.0


From 1dec90ef81de1694e8550d2caca5dc5508c24a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 05/53] fix: inserting into a slice inserts instead of
 overwriting

---
 libpyclingo/clingo/util.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/util.py b/libpyclingo/clingo/util.py
index 54054e8..dd967fc 100644
--- a/libpyclingo/clingo/util.py
+++ b/libpyclingo/clingo/util.py
@@ -92,4 +92,12 @@ class SlicedMutableSequence(SlicedSequence, abc.MutableSequence):
         del self._mut_seq[self._rng[index]]
 
     def insert(self, index, value):
-        self._mut_seq[self._rng[index]] = value
+        rng = self._rng
+        size = len(rng)
+        if index < 0:
+            index = max(index + size, 0)
+        if index < size:
+            pos = rng[index]
+        else:
+            pos = rng[-1] + 1 if rng else rng.start
+        self._mut_seq.insert(pos, value)
-- 
2.43.0


From 81c165ac180600b4ab4a763aabc0fcbb4ee1d892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 06/53] fix: rethrow the first exception of a callback as it
 was raised

---
 libpyclingo/clingo/_internal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libpyclingo/clingo/_internal.py b/libpyclingo/clingo/_internal.py
index 40ddfd8..077f8e8 100644
--- a/libpyclingo/clingo/_internal.py
+++ b/libpyclingo/clingo/_internal.py
@@ -74,7 +74,7 @@ def _handle_error(ret: bool, handler=None):
             and handler is not None
             and handler.error is not None
         ):
-            raise handler.error[0](handler.error[1]).with_traceback(handler.error[2])
+            raise handler.error[1].with_traceback(handler.error[2])
         msg = _ffi.string(_lib.clingo_error_message()).decode()
         if code == _lib.clingo_error_bad_alloc:
             raise MemoryError(msg)
@@ -137,7 +137,8 @@ class _Error:
         This function is thread-safe.
         """
         # pylint: disable=protected-access
-        self._error = value
+        if self._error is None:
+            self._error = value
 
 
 class _CBData:
-- 
2.43.0


From 7f4a3c91277aa3b778d59c69613d3c8cecce6167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 07/53] fix: do not ignore ground contexts that evaluate to
 false

---
 libpyclingo/clingo/control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index 4cc7ef7..00c0371 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -548,8 +548,8 @@ class Control:
         # pylint: disable=protected-access,dangerous-default-value
         self._error.clear()
         data = _CBData(context, self._error)
-        c_data = _ffi.new_handle(data) if context else _ffi.NULL
-        c_cb = _lib.pyclingo_ground_callback if context else _ffi.NULL
+        c_data = _ffi.new_handle(data) if context is not None else _ffi.NULL
+        c_cb = _lib.pyclingo_ground_callback if context is not None else _ffi.NULL
 
         c_mem = []
         c_parts = _ffi.new("clingo_part_t[]", len(parts))
-- 
2.43.0


From c7997def25a131ac9f09a5a21cce9d07b1813d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 08/53] fix: keep the kind of errors without a message

---
 libpyclingo/clingo/_internal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/_internal.py b/libpyclingo/clingo/_internal.py
index 077f8e8..cc84999 100644
--- a/libpyclingo/clingo/_internal.py
+++ b/libpyclingo/clingo/_internal.py
@@ -75,7 +75,8 @@ def _handle_error(ret: bool, handler=None):
             and handler.error is not None
         ):
             raise handler.error[1].with_traceback(handler.error[2])
-        msg = _ffi.string(_lib.clingo_error_message()).decode()
+        p_msg = _lib.clingo_error_message()
+        msg = "no message" if p_msg == _ffi.NULL else _ffi.string(p_msg).decode()
         if code == _lib.clingo_error_bad_alloc:
             raise MemoryError(msg)
         raise RuntimeError(msg)
-- 
2.43.0


From 8d4d46a13758a231703ec5f33a7c17232f04572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 09/53] fix: pass on exceptions of observers called by backend
 statements

---
 libpyclingo/clingo/backend.py | 46 +++++++++++++++++++++++++++++------
 libpyclingo/clingo/control.py | 23 +++++++++++++-----
 2 files changed, 55 insertions(+), 14 deletions(-)

diff --git a/libpyclingo/clingo/backend.py b/libpyclingo/clingo/backend.py
index db78e2d..7c993c9 100644
--- a/libpyclingo/clingo/backend.py
+++ b/libpyclingo/clingo/backend.py
@@ -606,10 +606,12 @@ class Backend(ContextManager["Backend"]):
         condition
             List of program literals.
         """
+        self._error.clear()
         _handle_error(
             _lib.clingo_backend_acyc_edge(
                 self._rep, node_u, node_v, condition, len(condition)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_assume(self, literals: Sequence[int]) -> None:
@@ -621,7 +623,11 @@ class Backend(ContextManager["Backend"]):
         literals
             The list of literals to assume true.
         """
-        _handle_error(_lib.clingo_backend_assume(self._rep, literals, len(literals)))
+        self._error.clear()
+        _handle_error(
+            _lib.clingo_backend_assume(self._rep, literals, len(literals)),
+            handler=self._error,
+        )
 
     def add_atom(self, symbol: Optional[Symbol] = None) -> int:
         """
@@ -668,7 +674,11 @@ class Backend(ContextManager["Backend"]):
         -----
         Can also be used to release an external atom using `TruthValue.Release`.
         """
-        _handle_error(_lib.clingo_backend_external(self._rep, atom, value.value))
+        self._error.clear()
+        _handle_error(
+            _lib.clingo_backend_external(self._rep, atom, value.value),
+            handler=self._error,
+        )
 
     def add_heuristic(
         self,
@@ -694,10 +704,12 @@ class Backend(ContextManager["Backend"]):
         condition
             List of program literals.
         """
+        self._error.clear()
         _handle_error(
             _lib.clingo_backend_heuristic(
                 self._rep, atom, type_.value, bias, priority, condition, len(condition)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_minimize(self, priority: int, literals: Sequence[Tuple[int, int]]) -> None:
@@ -711,8 +723,10 @@ class Backend(ContextManager["Backend"]):
         literals
             List of pairs of program literals and weights.
         """
+        self._error.clear()
         _handle_error(
-            _lib.clingo_backend_minimize(self._rep, priority, literals, len(literals))
+            _lib.clingo_backend_minimize(self._rep, priority, literals, len(literals)),
+            handler=self._error,
         )
 
     def add_project(self, atoms: Sequence[int]) -> None:
@@ -724,7 +738,11 @@ class Backend(ContextManager["Backend"]):
         atoms
             List of program atoms to project on.
         """
-        _handle_error(_lib.clingo_backend_project(self._rep, atoms, len(atoms)))
+        self._error.clear()
+        _handle_error(
+            _lib.clingo_backend_project(self._rep, atoms, len(atoms)),
+            handler=self._error,
+        )
 
     def add_rule(
         self, head: Sequence[int], body: Sequence[int] = [], choice: bool = False
@@ -747,10 +765,12 @@ class Backend(ContextManager["Backend"]):
         singleton head list, respectively.
         """
         # pylint: disable=dangerous-default-value
+        self._error.clear()
         _handle_error(
             _lib.clingo_backend_rule(
                 self._rep, choice, head, len(head), body, len(body)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_weight_rule(
@@ -776,10 +796,12 @@ class Backend(ContextManager["Backend"]):
         choice
             Whether to add a disjunctive or choice rule.
         """
+        self._error.clear()
         _handle_error(
             _lib.clingo_backend_weight_rule(
                 self._rep, choice, head, len(head), lower, body, len(body)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_theory_term_number(self, number: int) -> int:
@@ -795,6 +817,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added term.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_term_number,
@@ -816,6 +839,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added term.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_term_string,
@@ -839,6 +863,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added term.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_term_function,
@@ -866,6 +891,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added term.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_term_sequence,
@@ -889,6 +915,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added term.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_term_symbol,
@@ -912,6 +939,7 @@ class Backend(ContextManager["Backend"]):
         -------
         The id of the added element.
         """
+        self._error.clear()
         return _c_call(
             "clingo_id_t",
             _lib.clingo_backend_theory_element,
@@ -952,6 +980,7 @@ class Backend(ContextManager["Backend"]):
         """
         if atom_id_or_zero is None:
             atom_id_or_zero = 0xFFFFFFFF
+        self._error.clear()
         return _c_call(
             "clingo_atom_t",
             _lib.clingo_backend_theory_atom,
@@ -993,6 +1022,7 @@ class Backend(ContextManager["Backend"]):
         """
         if atom_id_or_zero is None:
             atom_id_or_zero = 0xFFFFFFFF
+        self._error.clear()
         return _c_call(
             "clingo_atom_t",
             _lib.clingo_backend_theory_atom_with_guard,
diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index 00c0371..f9762fa 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -346,7 +346,8 @@ class Control:
 
         This function removes all minimize constraints that were previously added to the program.
         """
-        _handle_error(_lib.clingo_control_remove_minimize(self._rep))
+        self._error.clear()
+        _handle_error(_lib.clingo_control_remove_minimize(self._rep), self._error)
 
     def _update_project(
         self, atoms: Sequence[Union[Symbol, int]], append: bool
@@ -355,8 +356,10 @@ class Control:
         for i, lit in enumerate(atoms):
             p_proj[i] = self._program_atom(lit)
 
+        self._error.clear()
         _handle_error(
-            _lib.clingo_control_update_project(self._rep, p_proj, len(atoms), append)
+            _lib.clingo_control_update_project(self._rep, p_proj, len(atoms), append),
+            self._error,
         )
 
     def add_project(self, atoms: Sequence[Union[Symbol, int]]) -> None:
@@ -446,10 +449,12 @@ class Control:
             val = _lib.clingo_external_type_true
         else:
             val = _lib.clingo_external_type_false
+        self._error.clear()
         _handle_error(
             _lib.clingo_control_assign_external(
                 self._rep, self._program_atom(external), val
-            )
+            ),
+            self._error,
         )
 
     def backend(self) -> Backend:
@@ -493,7 +498,8 @@ class Control:
         Typically, it is not necessary to call this function manually because
         automatic cleanups are enabled by default.
         """
-        _handle_error(_lib.clingo_control_cleanup(self._rep))
+        self._error.clear()
+        _handle_error(_lib.clingo_control_cleanup(self._rep), self._error)
 
     def get_const(self, name: str) -> Optional[Symbol]:
         """
@@ -609,7 +615,10 @@ class Control:
         for i, path in enumerate(files):
             c_mem.append(_ffi.new("char[]", path.encode()))
             c_files[i] = c_mem[-1]
-        _handle_error(_lib.clingo_control_load_aspif(self._rep, c_files, len(files)))
+        self._error.clear()
+        _handle_error(
+            _lib.clingo_control_load_aspif(self._rep, c_files, len(files)), self._error
+        )
 
     def register_observer(self, observer: Observer, replace: bool = False) -> None:
         """
@@ -869,10 +878,12 @@ class Control:
             a
             SAT
         """
+        self._error.clear()
         _handle_error(
             _lib.clingo_control_release_external(
                 self._rep, self._program_atom(external)
-            )
+            ),
+            self._error,
         )
 
     # this assumes that overloads are matched in the order they appear
-- 
2.43.0


From 75dd3265f1430df5397b0aed5cf03e58d820b82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:16 +0000
Subject: [PATCH 10/53] fix: check for errors in calls of the C++ API that
 ignored them

---
 libclingo/clingo.hh | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 1dd6e70..136b471 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -2603,25 +2603,25 @@ inline bool operator>=(Symbol a, Symbol b) { return !clingo_symbol_is_less_than(
 
 inline Symbol SymbolicAtom::symbol() const {
     clingo_symbol_t ret = 0;
-    clingo_symbolic_atoms_symbol(atoms_, range_, &ret);
+    Detail::handle_error(clingo_symbolic_atoms_symbol(atoms_, range_, &ret));
     return Symbol(ret);
 }
 
 inline clingo_literal_t SymbolicAtom::literal() const {
     clingo_literal_t ret = 0;
-    clingo_symbolic_atoms_literal(atoms_, range_, &ret);
+    Detail::handle_error(clingo_symbolic_atoms_literal(atoms_, range_, &ret));
     return ret;
 }
 
 inline bool SymbolicAtom::is_fact() const {
     bool ret = false;
-    clingo_symbolic_atoms_is_fact(atoms_, range_, &ret);
+    Detail::handle_error(clingo_symbolic_atoms_is_fact(atoms_, range_, &ret));
     return ret;
 }
 
 inline bool SymbolicAtom::is_external() const {
     bool ret = false;
-    clingo_symbolic_atoms_is_external(atoms_, range_, &ret);
+    Detail::handle_error(clingo_symbolic_atoms_is_external(atoms_, range_, &ret));
     return ret;
 }
 
@@ -2674,7 +2674,7 @@ inline SymbolicAtomIterator SymbolicAtoms::find(Symbol atom) const {
 
 inline std::vector<Signature> SymbolicAtoms::signatures() const {
     size_t n = 0;
-    clingo_symbolic_atoms_signatures_size(atoms_, &n);
+    Detail::handle_error(clingo_symbolic_atoms_signatures_size(atoms_, &n));
     Signature sig("", 0);
     std::vector<Signature> ret;
     ret.resize(n, sig);
@@ -3601,7 +3601,7 @@ template <> struct construct_ast<0> {
             throw std::runtime_error("invalid argument");
         }
         clingo_ast_t *ret = nullptr;
-        clingo_ast_build(type, &ret, std::forward<Args>(args)...);
+        Detail::handle_error(clingo_ast_build(type, &ret, std::forward<Args>(args)...));
         return ret;
     }
 };
@@ -4377,7 +4377,7 @@ inline SymbolicAtoms Control::symbolic_atoms() const {
 
 inline TheoryAtoms Control::theory_atoms() const {
     clingo_theory_atoms_t const *ret = nullptr;
-    clingo_control_theory_atoms(*impl_, &ret);
+    Detail::handle_error(clingo_control_theory_atoms(*impl_, &ret));
     return TheoryAtoms{ret};
 }
 
-- 
2.43.0


From 0436cf1234ab2b926047371d431340dd54fb646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:16 +0000
Subject: [PATCH 11/53] fix: allow for copying moved-from nodes in the C++ API

---
 libclingo/clingo.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 136b471..f6e48f2 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3644,7 +3644,11 @@ Node::Node(Type type, Args &&...args)
           g_clingo_ast_constructors.constructors[static_cast<size_t>(type)], // NOLINT
           std::forward<Args>(args)...)} {}
 
-inline Node::Node(Node const &ast) : ast_{ast.ast_} { clingo_ast_acquire(ast_); }
+inline Node::Node(Node const &ast) : ast_{ast.ast_} {
+    if (ast_ != nullptr) {
+        clingo_ast_acquire(ast_);
+    }
+}
 
 inline Node::Node(Node &&ast) noexcept : ast_{ast.ast_} { ast.ast_ = nullptr; }
 
-- 
2.43.0


From 539989e44f86fed2bb951dbb9250e0abb750b0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 12/53] fix: pass on exceptions of observers called by backend
 statements in the C++ API

---
 libclingo/clingo.hh | 81 +++++++++++++++++++++++++++------------------
 1 file changed, 49 insertions(+), 32 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index f6e48f2..bed526b 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -1568,9 +1568,15 @@ enum class TheorySequenceType {
     Set = clingo_theory_sequence_type_set,
 };
 
+namespace Detail {
+
+class AssignOnce;
+
+} // namespace Detail
+
 class Backend {
   public:
-    explicit Backend(clingo_backend_t *backend);
+    explicit Backend(clingo_backend_t *backend, Detail::AssignOnce *exception = nullptr);
     Backend(Backend const &backend) = delete;
     Backend(Backend &&backend) noexcept;
     Backend &operator=(Backend const &backend) = delete;
@@ -1603,6 +1609,7 @@ class Backend {
 
   private:
     clingo_backend_t *backend_ = nullptr;
+    Detail::AssignOnce *exception_ = nullptr;
 };
 
 // {{{1 statistics
@@ -1741,12 +1748,6 @@ inline void SolveEventHandler::on_statistics(UserStatistics step, UserStatistics
 
 inline void SolveEventHandler::on_finish(SolveResult result) { static_cast<void>(result); }
 
-namespace Detail {
-
-class AssignOnce;
-
-} // namespace Detail
-
 class SolveHandle {
   public:
     SolveHandle() = default;
@@ -2440,7 +2441,16 @@ class AssignOnce {
 
 inline void handle_error(bool ret, AssignOnce &exc) {
     if (!ret) {
+        std::exception_ptr ptr = *exc;
+        exc.reset();
+        handle_error(ret, ptr);
+    }
+}
+inline void handle_error(bool ret, AssignOnce *exc) {
+    if (exc != nullptr) {
         handle_error(ret, *exc);
+    } else {
+        handle_error(ret);
     }
 }
 
@@ -3220,99 +3230,105 @@ inline Backend::Backend(Backend &&backend) noexcept { *this = std::move(backend)
 
 inline Backend &Backend::operator=(Backend &&backend) noexcept {
     std::swap(backend_, backend.backend_);
+    std::swap(exception_, backend.exception_);
     return *this;
 }
 
-inline Backend::Backend(clingo_backend_t *backend) : backend_{backend} {
-    Detail::handle_error(clingo_backend_begin(backend_));
+inline Backend::Backend(clingo_backend_t *backend, Detail::AssignOnce *exception)
+    : backend_{backend}, exception_{exception} {
+    Detail::handle_error(clingo_backend_begin(backend_), exception_);
 }
 
 inline Backend::~Backend() noexcept(false) { close(); }
 
 inline void Backend::close() {
     if (backend_ != nullptr) {
-        Detail::handle_error(clingo_backend_end(backend_));
+        Detail::handle_error(clingo_backend_end(backend_), exception_);
         backend_ = nullptr;
     }
 }
 
 inline void Backend::rule(bool choice, AtomSpan head, LiteralSpan body) {
-    Detail::handle_error(clingo_backend_rule(backend_, choice, head.begin(), head.size(), body.begin(), body.size()));
+    Detail::handle_error(clingo_backend_rule(backend_, choice, head.begin(), head.size(), body.begin(), body.size()),
+                         exception_);
 }
 
 inline void Backend::weight_rule(bool choice, AtomSpan head, weight_t lower, WeightedLiteralSpan body) {
     Detail::handle_error(clingo_backend_weight_rule(backend_, choice, head.begin(), head.size(), lower,
                                                     Detail::cast<clingo_weighted_literal_t const *>(body.begin()),
-                                                    body.size()));
+                                                    body.size()), exception_);
 }
 
 inline void Backend::minimize(weight_t prio, WeightedLiteralSpan body) {
     Detail::handle_error(clingo_backend_minimize(
-        backend_, prio, Detail::cast<clingo_weighted_literal_t const *>(body.begin()), body.size()));
+        backend_, prio, Detail::cast<clingo_weighted_literal_t const *>(body.begin()), body.size()), exception_);
 }
 
 inline void Backend::project(AtomSpan atoms) {
-    Detail::handle_error(clingo_backend_project(backend_, atoms.begin(), atoms.size()));
+    Detail::handle_error(clingo_backend_project(backend_, atoms.begin(), atoms.size()), exception_);
 }
 
 inline void Backend::external(atom_t atom, ExternalType type) {
-    Detail::handle_error(clingo_backend_external(backend_, atom, static_cast<clingo_external_type_t>(type)));
+    Detail::handle_error(clingo_backend_external(backend_, atom, static_cast<clingo_external_type_t>(type)),
+                         exception_);
 }
 
 inline void Backend::assume(LiteralSpan lits) {
-    Detail::handle_error(clingo_backend_assume(backend_, lits.begin(), lits.size()));
+    Detail::handle_error(clingo_backend_assume(backend_, lits.begin(), lits.size()), exception_);
 }
 
 inline void Backend::heuristic(atom_t atom, HeuristicType type, int bias, unsigned priority, LiteralSpan condition) {
     Detail::handle_error(clingo_backend_heuristic(backend_, atom, static_cast<clingo_heuristic_type_t>(type), bias,
-                                                  priority, condition.begin(), condition.size()));
+                                                  priority, condition.begin(), condition.size()), exception_);
 }
 
 inline void Backend::acyc_edge(int node_u, int node_v, LiteralSpan condition) {
-    Detail::handle_error(clingo_backend_acyc_edge(backend_, node_u, node_v, condition.begin(), condition.size()));
+    Detail::handle_error(clingo_backend_acyc_edge(backend_, node_u, node_v, condition.begin(), condition.size()),
+                         exception_);
 }
 
 inline atom_t Backend::add_atom() {
     clingo_atom_t ret = 0;
-    Detail::handle_error(clingo_backend_add_atom(backend_, nullptr, &ret));
+    Detail::handle_error(clingo_backend_add_atom(backend_, nullptr, &ret), exception_);
     return ret;
 }
 
 inline atom_t Backend::add_atom(Symbol symbol) {
     clingo_atom_t ret = 0;
     clingo_symbol_t sym = symbol.to_c();
-    Detail::handle_error(clingo_backend_add_atom(backend_, &sym, &ret));
+    Detail::handle_error(clingo_backend_add_atom(backend_, &sym, &ret), exception_);
     return ret;
 }
 
 inline id_t Backend::add_theory_term_number(int number) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_number(backend_, number, &ret));
+    Detail::handle_error(clingo_backend_theory_term_number(backend_, number, &ret), exception_);
     return ret;
 }
 
 inline id_t Backend::add_theory_term_string(char const *string) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_string(backend_, string, &ret));
+    Detail::handle_error(clingo_backend_theory_term_string(backend_, string, &ret), exception_);
     return ret;
 }
 
 inline id_t Backend::add_theory_term_sequence(TheorySequenceType type, IdSpan elements) {
     clingo_id_t ret = 0;
     Detail::handle_error(clingo_backend_theory_term_sequence(backend_, static_cast<clingo_theory_sequence_type_e>(type),
-                                                             elements.data(), elements.size(), &ret));
+                                                             elements.data(), elements.size(), &ret), exception_);
     return ret;
 }
 
 inline id_t Backend::add_theory_term_function(char const *name, IdSpan elements) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_function(backend_, name, elements.data(), elements.size(), &ret));
+    Detail::handle_error(clingo_backend_theory_term_function(backend_, name, elements.data(), elements.size(), &ret),
+                         exception_);
     return ret;
 }
 
 inline id_t Backend::add_theory_term_symbol(Symbol symbol) {
     clingo_id_t ret = 0;
-    Detail::handle_error(clingo_backend_theory_term_symbol(backend_, symbol.to_c(), &ret));
+    Detail::handle_error(clingo_backend_theory_term_symbol(backend_, symbol.to_c(), &ret), exception_);
     return ret;
 }
 
@@ -3326,7 +3342,7 @@ inline id_t Backend::add_theory_element(IdSpan tuple, LiteralSpan condition) {
 inline atom_t Backend::theory_atom(id_t term_id, IdSpan elements) {
     atom_t ret = 0;
     Detail::handle_error(clingo_backend_theory_atom(backend_, std::numeric_limits<atom_t>::max(), term_id,
-                                                    elements.begin(), elements.size(), &ret));
+                                                    elements.begin(), elements.size(), &ret), exception_);
     return ret;
 }
 
@@ -3334,7 +3350,7 @@ inline atom_t Backend::theory_atom(id_t term_id, IdSpan elements, char const *op
     atom_t ret = 0;
     Detail::handle_error(clingo_backend_theory_atom_with_guard(backend_, std::numeric_limits<atom_t>::max(), term_id,
                                                                elements.begin(), elements.size(), operator_name,
-                                                               right_hand_side_id, &ret));
+                                                               right_hand_side_id, &ret), exception_);
     return ret;
 }
 
@@ -3350,7 +3366,7 @@ inline atom_t Backend::theory_atom(id_t atom_id_or_zero, id_t term_id, IdSpan el
     atom_t ret = 0;
     Detail::handle_error(clingo_backend_theory_atom_with_guard(backend_, atom_id_or_zero, term_id, elements.begin(),
                                                                elements.size(), operator_name, right_hand_side_id,
-                                                               &ret));
+                                                               &ret), exception_);
     return ret;
 }
 
@@ -4350,7 +4366,8 @@ inline SolveHandle Control::solve(LiteralSpan assumptions, SolveEventHandler *ha
 }
 
 inline void Control::assign_external(literal_t literal, TruthValue value) {
-    Detail::handle_error(clingo_control_assign_external(*impl_, literal, static_cast<clingo_truth_value_t>(value)));
+    Detail::handle_error(clingo_control_assign_external(*impl_, literal, static_cast<clingo_truth_value_t>(value)),
+                         impl_->ptr);
 }
 
 inline void Control::assign_external(Symbol atom, TruthValue value) {
@@ -4362,7 +4379,7 @@ inline void Control::assign_external(Symbol atom, TruthValue value) {
 }
 
 inline void Control::release_external(literal_t literal) {
-    Detail::handle_error(clingo_control_release_external(*impl_, literal));
+    Detail::handle_error(clingo_control_release_external(*impl_, literal), impl_->ptr);
 }
 
 inline void Control::release_external(Symbol atom) {
@@ -4648,7 +4665,7 @@ inline bool Control::enable_enumeration_assumption() const {
     return clingo_control_get_enable_enumeration_assumption(*impl_);
 }
 
-inline void Control::cleanup() { Detail::handle_error(clingo_control_cleanup(*impl_)); }
+inline void Control::cleanup() { Detail::handle_error(clingo_control_cleanup(*impl_), impl_->ptr); }
 
 inline void Control::enable_cleanup(bool value) {
     Detail::handle_error(clingo_control_set_enable_cleanup(*impl_, value));
@@ -4659,7 +4676,7 @@ inline bool Control::enable_cleanup() const { return clingo_control_get_enable_c
 inline Backend Control::backend() {
     clingo_backend_t *ret = nullptr;
     Detail::handle_error(clingo_control_backend(*impl_, &ret));
-    return Backend{ret};
+    return Backend{ret, &impl_->ptr};
 }
 
 inline Configuration Control::configuration() {
-- 
2.43.0


From 2290c6033961943aafa6715843c5888f9994aa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 13/53] fix: pass the control to the parser functions of the
 C++ API

---
 libclingo/clingo.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index bed526b..4d76a2a 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -4146,7 +4146,7 @@ inline void parse_string(char const *program, Callback &&cb, clingo_control_t *c
                                  CLINGO_CALLBACK_TRY { d.first(Node{ast}); }
                                  CLINGO_CALLBACK_CATCH(d.second);
                              },
-                             &data, nullptr,
+                             &data, control,
                              [](clingo_warning_t code, char const *msg, void *data) {
                                  try {
                                      (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
@@ -4170,7 +4170,7 @@ inline void parse_files(StringSpan files, Callback &&cb, clingo_control_t *contr
                                  CLINGO_CALLBACK_TRY { d.first(Node{ast}); }
                                  CLINGO_CALLBACK_CATCH(d.second);
                              },
-                             &data, nullptr,
+                             &data, control,
                              [](clingo_warning_t code, char const *msg, void *data) {
                                  try {
                                      (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
-- 
2.43.0


From b836f977b939c592ead34acd666d86b21c33dd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 14/53] fix: rethrow exceptions raised while unpooling in the
 C++ API

---
 libclingo/clingo.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 4d76a2a..7df3968 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3928,7 +3928,8 @@ inline std::vector<Node> Node::unpool(bool other, bool condition) const {
             CLINGO_CALLBACK_TRY { d.first.emplace_back(ast); }
             CLINGO_CALLBACK_CATCH(d.second);
         },
-        &data));
+        &data),
+        data.second);
     return std::move(data.first);
 }
 
-- 
2.43.0


From a9c8011144c306a7ad80ee7b395d04f966d1706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:51 +0000
Subject: [PATCH 15/53] fix: setting an array attribute to the value of another
 attribute of the same node

---
 libclingo/clingo.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 7df3968..77600d5 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -2177,6 +2177,8 @@ class NodeRef {
 };
 
 class NodeVector {
+    friend class Node;
+
   public:
     using value_type = Node;
     using iterator = ArrayIterator<NodeRef, NodeVector *>;
@@ -2222,6 +2224,8 @@ class StringRef {
 };
 
 class StringVector {
+    friend class Node;
+
   public:
     using value_type = char const *;
     using iterator = ArrayIterator<StringRef, StringVector *>;
@@ -3802,7 +3806,7 @@ inline void Node::set(Attribute attribute, NodeValue value) {
             auto val = get(attribute);
             auto &a = val.get<StringVector>();
             auto &b = value.get<StringVector>();
-            if (a.ast().to_c() != b.ast().to_c()) {
+            if (a.ast().to_c() != b.ast().to_c() || a.attr_ != b.attr_) {
                 a.clear();
                 for (auto x : b) {
                     a.push_back(x);
@@ -3814,7 +3818,7 @@ inline void Node::set(Attribute attribute, NodeValue value) {
             auto val = get(attribute);
             auto &a = val.get<NodeVector>();
             auto &b = value.get<NodeVector>();
-            if (a.ast().to_c() != b.ast().to_c()) {
+            if (a.ast().to_c() != b.ast().to_c() || a.attr_ != b.attr_) {
                 a.clear();
                 for (auto x : b) {
                     a.push_back(x);
-- 
2.43.0


From d064a9c831dea803c3ea65e181b68f9ef9a4c128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:51 +0000
Subject: [PATCH 16/53] fix: add missing definition of StringVector::set

---
 libclingo/clingo.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 77600d5..5be94bf 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -4075,6 +4075,10 @@ inline StringVector::iterator StringVector::insert(iterator it, char const *str)
     return it;
 }
 
+inline void StringVector::set(iterator it, char const *str) {
+    Detail::handle_error(clingo_ast_attribute_set_string_at(ast_.to_c(), attr_, it - begin(), str));
+}
+
 inline StringVector::iterator StringVector::erase(iterator it) {
     Detail::handle_error(clingo_ast_attribute_delete_string_at(ast_.to_c(), attr_, it - begin()));
     return it;
-- 
2.43.0


From a4878ae38a11f763fab58c48424489cf8f731215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:51 +0000
Subject: [PATCH 17/53] fix: self assignment and emplace of optionals in the
 C++ API

---
 libclingo/clingo.hh | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 5be94bf..3298bde 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -172,17 +172,14 @@ template <class T> class Optional {
     Optional(Optional &opt) : data_(opt ? new T(*opt) : nullptr) {}
     Optional(Optional const &opt) : data_(opt ? new T(*opt) : nullptr) {}
     Optional &operator=(T const &x) {
-        clear();
         data_.reset(new T(x));
         return *this;
     }
     Optional &operator=(T &x) {
-        clear();
         data_.reset(new T(x));
         return *this;
     }
     Optional &operator=(T &&x) {
-        clear();
         data_.reset(new T(std::move(x)));
         return *this;
     }
@@ -191,7 +188,6 @@ template <class T> class Optional {
         return *this;
     }
     Optional &operator=(Optional const &opt) {
-        clear();
         data_.reset(opt ? new T(*opt) : nullptr);
         return *this;
     }
@@ -205,7 +201,7 @@ template <class T> class Optional {
     T const &&operator*() const && { return std::move(*get()); }
     template <class... Args> void emplace(Args &&...x) {
         clear();
-        data_(new T{std::forward<Args>(x)...});
+        data_.reset(new T{std::forward<Args>(x)...});
     }
     void clear() { data_.reset(nullptr); }
     explicit operator bool() const { return data_ != nullptr; }
-- 
2.43.0


From 4389d97dba968970bb9219dda7de87c1c2c06c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:02 +0000
Subject: [PATCH 18/53] fix: constructing nodes with optional children in the
 C++ API

---
 libclingo/clingo.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 3298bde..1174912 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3588,7 +3588,8 @@ template <size_t j> struct construct_ast {
         if (cons.size <= i || cons.arguments[i].type != clingo_ast_attribute_type_optional_ast) { // NOLINT
             throw std::runtime_error("invalid argument");
         }
-        return construct_ast<j - 1>::template construct<i + 1>(type, cons, std::forward<Args>(args)..., arg.get());
+        clingo_ast_t *ast = arg ? arg->to_c() : nullptr;
+        return construct_ast<j - 1>::template construct<i + 1>(type, cons, std::forward<Args>(args)..., ast);
     }
     template <size_t i, class... Args>
     static clingo_ast_t *construct(clingo_ast_type_t type, clingo_ast_constructor_t const &cons,
-- 
2.43.0


From a336c6e6772bb6ab6d297deaa7c76cfed6074f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:06 +0000
Subject: [PATCH 19/53] fix: do not close handles twice in the C++ API if
 closing fails

---
 libclingo/clingo.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 1174912..6702e36 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3219,8 +3219,9 @@ inline SolveHandle::~SolveHandle() noexcept(false) { close(); }
 
 inline void SolveHandle::close() {
     if (iter_ != nullptr) {
-        Detail::handle_error(clingo_solve_handle_close(iter_), *exception_);
+        auto *ptr = iter_;
         iter_ = nullptr;
+        Detail::handle_error(clingo_solve_handle_close(ptr), *exception_);
     }
 }
 
@@ -3243,8 +3244,9 @@ inline Backend::~Backend() noexcept(false) { close(); }
 
 inline void Backend::close() {
     if (backend_ != nullptr) {
-        Detail::handle_error(clingo_backend_end(backend_), exception_);
+        auto *ptr = backend_;
         backend_ = nullptr;
+        Detail::handle_error(clingo_backend_end(ptr), exception_);
     }
 }
 
@@ -4124,8 +4126,9 @@ inline ProgramBuilder::ProgramBuilder(ProgramBuilder &&builder) noexcept : build
 
 inline void ProgramBuilder::close() {
     if (builder_ != nullptr) {
-        Detail::handle_error(clingo_program_builder_end(builder_));
+        auto *ptr = builder_;
         builder_ = nullptr;
+        Detail::handle_error(clingo_program_builder_end(ptr));
     }
 }
 
-- 
2.43.0


From 9fbb8e5c8a871e856bc65843495109f3a488050f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:57 +0000
Subject: [PATCH 20/53] fix: call finish handler in lua

---
 libluaclingo/luaclingo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 6d2269b..20fd653 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1820,7 +1820,7 @@ struct SolveHandle : Object<SolveHandle> {
         return 1;
     }
     static int on_finish_(lua_State *L) {
-        lua_pushstring(L, "on_model");
+        lua_pushstring(L, "on_finish");
         lua_rawget(L, 1);
         auto x = static_cast<clingo_solve_mode_bitset_t *>(lua_touserdata(L, 2));
         SolveResult::new_(L, *x);
-- 
2.43.0


From deed694594fe05e71af51439c264a91ecc2cc6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:57 +0000
Subject: [PATCH 21/53] fix: do not use error messages as format strings in lua

---
 libluaclingo/luaclingo.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 20fd653..1bdb38c 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -43,7 +43,7 @@ template <typename T> auto protect(lua_State *L, T f) -> decltype(f()) {
     try {
         return f();
     } catch (std::exception const &e) {
-        luaL_error(L, e.what());
+        luaL_error(L, "%s", e.what());
     } catch (...) {
         luaL_error(L, "unknown error");
     }
@@ -58,7 +58,7 @@ void handle_c_error(lua_State *L, bool ret) {
         if (!msg) {
             msg = "no message";
         }
-        luaL_error(L, msg);
+        luaL_error(L, "%s", msg);
     }
 }
 
-- 
2.43.0


From 47b4b9604388e29179299295ff37b227602c9256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:57 +0000
Subject: [PATCH 22/53] fix: positive assumptions over unknown atoms in lua

---
 libluaclingo/luaclingo.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 1bdb38c..701bba0 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3441,6 +3441,9 @@ struct ControlWrap : Object<ControlWrap> {
                 if (auto *lits = luaToLits(L, -1, atoms, false, false)) { // +1/+0
                     handle->ass->swap(*lits);
                     lua_pop(L, 1); // -1
+                } else {
+                    // there is a false assumption
+                    PROTECT((*handle->ass = {1, -1}, 0));
                 }
             }
             lua_pop(L, 1); // -1
-- 
2.43.0


From 81ebe6754e9907d665796e13a25b921febc46eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:57 +0000
Subject: [PATCH 23/53] fix: freeze argument of PropagateInit.add_literal in
 lua

---
 libluaclingo/luaclingo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 701bba0..d137a1b 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -2538,7 +2538,7 @@ struct PropagateInit : Object<PropagateInit> {
 
     static int addLiteral(lua_State *L) {
         auto &self = get_self(L);
-        bool freeze = lua_isnoneornil(L, 1) || lua_toboolean(L, 1);
+        bool freeze = lua_isnoneornil(L, 2) || lua_toboolean(L, 2);
         lua_pushinteger(L, call_c(L, clingo_propagate_init_add_literal, self.init, freeze));
         return 1;
     }
-- 
2.43.0


From e873b8a7a91c84b51f8ce3c9920934a452642bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:57 +0000
Subject: [PATCH 24/53] fix: do not collect control objects that could not be
 constructed in lua

---
 libluaclingo/luaclingo.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index d137a1b..9c08b5a 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3618,11 +3618,14 @@ struct ControlWrap : Object<ControlWrap> {
     template <class F> static int new_(lua_State *L, F f) {
         lua_newtable(L);                                                    // +1
         auto self = (ControlWrap *)lua_newuserdata(L, sizeof(ControlWrap)); // +1
+        lua_rawseti(L, -2, 1);                                              // -1
+        protect(L, [self, f]() { f(self); });
+        // Note: the object must be constructed before it can be collected
         // see: https://stackoverflow.com/questions/27426704/lua-5-1-workaround-for-gc-metamethod-for-tables
+        lua_rawgeti(L, -1, 1);           // +1
         luaL_getmetatable(L, typeNameI); // +1
         lua_setmetatable(L, -2);         // -1
-        lua_rawseti(L, -2, 1);           // -1
-        protect(L, [self, f]() { f(self); });
+        lua_pop(L, 1);                   // -1
         luaL_getmetatable(L, typeName); // +1
         lua_setmetatable(L, -2);        // -1
         return 1;
-- 
2.43.0


From 26a30d87eea1403d19fb999068e3cb1e0cc42e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:57 +0000
Subject: [PATCH 25/53] fix: describe lua errors that are not strings

---
 libluaclingo/luaclingo.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 9c08b5a..e67df1c 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -70,6 +70,9 @@ bool handle_lua_error(lua_State *L, char const *loc, char const *desc, int code)
             case LUA_ERRERR:
             case LUA_ERRSYNTAX: {
                 char const *s = lua_tostring(L, -1);
+                if (s == nullptr) {
+                    s = "error object is not a string";
+                }
                 std::ostringstream msg;
                 msg << loc << ": " << "error: " << desc << ":\n"
                     << (code == LUA_ERRSYNTAX ? "  SyntaxError: " : "  RuntimeError: ") << s << "\n";
-- 
2.43.0


From 5b91078b9d101a9fefe4bf3cb5e3502025ebc53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:57 +0000
Subject: [PATCH 26/53] fix: keys of configuration entries that are not maps in
 lua

---
 libluaclingo/luaclingo.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index e67df1c..6baf60b 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1917,6 +1917,8 @@ struct Configuration : Object<Configuration> {
                 lua_pushstring(L, call_c(L, clingo_configuration_map_subkey_name, self.conf, self.key, i));
                 lua_rawseti(L, -2, numeric_cast<int>(i + 1));
             }
+        } else {
+            lua_pushnil(L);
         }
         return 1;
     }
-- 
2.43.0


From b82ed30ef98085862e02e9eccceeb861dccb39fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:57 +0000
Subject: [PATCH 27/53] fix: accept nil as type of weight constraints in lua

---
 libluaclingo/luaclingo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 6baf60b..7e799d1 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -2564,7 +2564,7 @@ struct PropagateInit : Object<PropagateInit> {
         luaL_checktype(L, 3, LUA_TTABLE);
         luaL_checknumber(L, 4);
         clingo_weight_constraint_type_t type = clingo_weight_constraint_type_equivalence;
-        if (!lua_isnone(L, 5)) {
+        if (!lua_isnoneornil(L, 5)) {
             type = luaL_checknumber(L, 5);
         }
         bool eq{!lua_isnone(L, 6) && lua_toboolean(L, 6)};
-- 
2.43.0


From 147f8b76d3d75098c37a68b7f78ec2ac1e3d7e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:57 +0000
Subject: [PATCH 28/53] fix: check lower bound of trail indices in lua

---
 libluaclingo/luaclingo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 7e799d1..a4572a5 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -2271,7 +2271,7 @@ struct Trail : Object<Trail> {
     static int at(lua_State *L) {
         auto &self = get_self(L);
         auto index = numeric_cast<int32_t>(luaL_checkinteger(L, 2)) - 1;
-        if (index < self.size_(L)) {
+        if (0 <= index && index < self.size_(L)) {
             lua_pushnumber(L, self.at_(L, index));
             return 1;
         }
-- 
2.43.0


From 2f68a50094e04621478508e12df5f99febc08ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:09 +0000
Subject: [PATCH 29/53] fix: assumptions over unknown atoms in python

---
 libpyclingo/clingo/control.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index f9762fa..675145c 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -1053,18 +1053,22 @@ class Control:
         self._handler = _ffi.new_handle(data)
 
         p_ass = _ffi.NULL
+        lits = []
         if assumptions:
             atoms = None
-            p_ass = _ffi.new("clingo_literal_t[]", len(assumptions))
-            for i, lit in enumerate(assumptions):
+            for lit in assumptions:
                 if isinstance(lit, int):
-                    p_ass[i] = lit
+                    lits.append(lit)
                 else:
                     if atoms is None:
                         atoms = self.symbolic_atoms
-                    atom = self.symbolic_atoms[lit[0]]
-                    slit = -1 if atom is None else atom.literal
-                    p_ass[i] = slit if lit[1] else -slit
+                    atom = atoms[lit[0]]
+                    if atom is not None:
+                        lits.append(atom.literal if lit[1] else -atom.literal)
+                    elif lit[1]:
+                        # atoms that are not part of the program are false
+                        lits.extend((1, -1))
+            p_ass = _ffi.new("clingo_literal_t[]", lits)
 
         mode = 0
         if yield_:
@@ -1079,7 +1083,7 @@ class Control:
                 self._rep,
                 mode,
                 p_ass,
-                len(assumptions),
+                len(lits),
                 _lib.pyclingo_solve_event_callback,
                 self._handler,
                 handler=data,
-- 
2.43.0


From ca3f49e25f250315938baab8be83f9265bb5f8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:32 +0000
Subject: [PATCH 30/53] fix: clauses over unknown atoms in python

---
 libpyclingo/clingo/solving.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/libpyclingo/clingo/solving.py b/libpyclingo/clingo/solving.py
index 963f118..5c51e05 100644
--- a/libpyclingo/clingo/solving.py
+++ b/libpyclingo/clingo/solving.py
@@ -172,20 +172,21 @@ class SolveControl:
         when using a `SolveHandle`.
         """
         atoms = self.symbolic_atoms
-        p_lits = _ffi.new("clingo_literal_t[]", len(literals))
-        for i, lit in enumerate(literals):
+        lits = []
+        for lit in literals:
             if isinstance(lit, int):
-                p_lits[i] = lit
+                lits.append(lit)
             else:
+                # atoms that are not part of the program are false
                 atom = atoms[lit[0]]
                 if atom is not None:
-                    slit = atom.literal
-                else:
-                    slit = -1
-                p_lits[i] = slit if lit[1] else -slit
+                    lits.append(atom.literal if lit[1] else -atom.literal)
+                elif not lit[1]:
+                    return
 
+        p_lits = _ffi.new("clingo_literal_t[]", lits)
         _handle_error(
-            _lib.clingo_solve_control_add_clause(self._rep, p_lits, len(literals))
+            _lib.clingo_solve_control_add_clause(self._rep, p_lits, len(lits))
         )
 
     def _invert(
-- 
2.43.0


From 1ff260b4d6496e95e80a38153b08eea41b0d14ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:34 +0000
Subject: [PATCH 31/53] fix: do not carry symbols over to the next model when
 iterating models

---
 libclingo/src/clingocontrol.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo/src/clingocontrol.cc b/libclingo/src/clingocontrol.cc
index cb80dda..5018eb4 100644
--- a/libclingo/src/clingocontrol.cc
+++ b/libclingo/src/clingocontrol.cc
@@ -329,8 +329,8 @@ void ClingoControl::main(IClingoApp &app, StringVec const &files, const ClingoOp
 }
 bool ClingoControl::onModel(Clasp::Model const &m) {
     bool ret = true;
+    theory_.reset();
     if (eventHandler_) {
-        theory_.reset();
         std::lock_guard<decltype(propLock_)> lock(propLock_);
         ClingoModel model(*this, &m);
         ret = eventHandler_->on_model(model);
-- 
2.43.0


From 6f0bf0cd5a523e3d26450db7d2f701ef682d1fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 32/53] fix: ignore unknown atoms when assigning and releasing
 externals

---
 libluaclingo/luaclingo.cc     |  8 ++++++--
 libpyclingo/clingo/control.py | 14 ++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index a4572a5..d337cf7 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3520,14 +3520,18 @@ struct ControlWrap : Object<ControlWrap> {
             luaL_checktype(L, 3, LUA_TBOOLEAN);
             truth = lua_toboolean(L, 3) ? clingo_truth_value_true : clingo_truth_value_false;
         }
-        handle_c_error(L, clingo_control_assign_external(self.ctl, sym, truth));
+        if (sym != 0) {
+            handle_c_error(L, clingo_control_assign_external(self.ctl, sym, truth));
+        }
         return 0;
     }
     static int release_external(lua_State *L) {
         auto &self = get_self(L);
         auto atoms = call_c(L, clingo_control_symbolic_atoms, self.ctl);
         auto sym = luaToAtom(L, 2, atoms);
-        handle_c_error(L, clingo_control_release_external(self.ctl, sym));
+        if (sym != 0) {
+            handle_c_error(L, clingo_control_release_external(self.ctl, sym));
+        }
         return 0;
     }
     static int interrupt(lua_State *L) {
diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index 675145c..326ba46 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -449,11 +449,12 @@ class Control:
             val = _lib.clingo_external_type_true
         else:
             val = _lib.clingo_external_type_false
+        lit = self._program_atom(external)
+        if lit == 0:
+            return
         self._error.clear()
         _handle_error(
-            _lib.clingo_control_assign_external(
-                self._rep, self._program_atom(external), val
-            ),
+            _lib.clingo_control_assign_external(self._rep, lit, val),
             self._error,
         )
 
@@ -878,11 +879,12 @@ class Control:
             a
             SAT
         """
+        lit = self._program_atom(external)
+        if lit == 0:
+            return
         self._error.clear()
         _handle_error(
-            _lib.clingo_control_release_external(
-                self._rep, self._program_atom(external)
-            ),
+            _lib.clingo_control_release_external(self._rep, lit),
             self._error,
         )
 
-- 
2.43.0


From 996c776fa32571aec6ca4906599499fc94faacb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 33/53] fix: do not project on unknown atoms

---
 libpyclingo/clingo/control.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index 326ba46..1e99655 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -352,13 +352,12 @@ class Control:
     def _update_project(
         self, atoms: Sequence[Union[Symbol, int]], append: bool
     ) -> None:
-        p_proj = _ffi.new("clingo_atom_t[]", len(atoms))
-        for i, lit in enumerate(atoms):
-            p_proj[i] = self._program_atom(lit)
+        proj = [atom for atom in map(self._program_atom, atoms) if atom != 0]
+        p_proj = _ffi.new("clingo_atom_t[]", proj)
 
         self._error.clear()
         _handle_error(
-            _lib.clingo_control_update_project(self._rep, p_proj, len(atoms), append),
+            _lib.clingo_control_update_project(self._rep, p_proj, len(proj), append),
             self._error,
         )
 
-- 
2.43.0


From acbc2fd01cb21d08ba531c59ef49b2f8386aece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 34/53] fix: deep copy optional children of syntax-tree nodes

clingo_ast_deep_copy copied optional attributes (guards) shallowly, so that
changing the copy's guard changed the original.
---
 libclingo/src/astv2.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libclingo/src/astv2.cc b/libclingo/src/astv2.cc
index e7e1759..c34765b 100644
--- a/libclingo/src/astv2.cc
+++ b/libclingo/src/astv2.cc
@@ -32,6 +32,7 @@ namespace {
 struct Deepcopy {
     template <typename T> AST::Value operator()(T const &val) { return val; }
     AST::Value operator()(SAST &ast) { return ast->deepcopy(); }
+    AST::Value operator()(OAST &ast) { return OAST{ast.ast.get() != nullptr ? ast.ast->deepcopy() : SAST{}}; }
     AST::Value operator()(AST::ASTVec &asts) {
         AST::ASTVec ret;
         ret.reserve(asts.size());
-- 
2.43.0


From baa37850fd5ed718634c934b364ac91513c30cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:20 +0000
Subject: [PATCH 35/53] fix: print empty conditions and tuples of syntax trees

An element with an empty tuple and condition printed like no element, and a
conditional literal with an empty condition in a body or as single head
printed like a literal, so that the text parsed to another tree (and, for
aggregates and theory atoms, to another program).
---
 libclingo/src/astv2_str.cc | 43 ++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/libclingo/src/astv2_str.cc b/libclingo/src/astv2_str.cc
index b07fd35..809a33e 100644
--- a/libclingo/src/astv2_str.cc
+++ b/libclingo/src/astv2_str.cc
@@ -239,11 +239,34 @@ PrintList<T> print_list(AST const &ast, clingo_ast_attribute_e attribute, char c
     return {get<T>(ast, attribute), pre, sep, post, empty};
 }
 
-PrintList<AST::ASTVec> print_body(AST const &ast, clingo_ast_attribute_e attribute, char const *pre = " : ") {
-    auto const &body = get<AST::ASTVec>(ast, attribute);
-    return print_list(body, body.empty() ? "" : pre, "; ", ".", true);
+// Conditional literals with empty conditions have to be distinguished from literals.
+void print_colon(std::ostream &out, AST const &ast) {
+    if (ast.type() == clingo_ast_type_conditional_literal &&
+        get<AST::ASTVec>(ast, clingo_ast_attribute_condition).empty()) {
+        out << ": ";
+    }
 }
 
+class print_body {
+  public:
+    print_body(AST const &ast, clingo_ast_attribute_e attribute, char const *pre = " : ")
+        : body_{get<AST::ASTVec>(ast, attribute)}, pre_{pre} {}
+
+    friend std::ostream &operator<<(std::ostream &out, print_body const &self) {
+        char const *sep = self.pre_;
+        for (auto const &x : self.body_) {
+            out << sep << x;
+            print_colon(out, *x);
+            sep = "; ";
+        }
+        return out << ".";
+    }
+
+  private:
+    AST::ASTVec const &body_;
+    char const *pre_;
+};
+
 class print {
   public:
     print(AST const &ast, clingo_ast_attribute_e attr) : ast_{ast}, attr_{attr} {}
@@ -416,8 +439,10 @@ std::ostream &operator<<(std::ostream &out, AST const &ast) {
             break;
         }
         case clingo_ast_type_body_aggregate_element: {
+            // an empty tuple has to be distinguished from no element
+            bool empty = get<AST::ASTVec>(ast, clingo_ast_attribute_terms).empty();
             out << print_list<AST::ASTVec>(ast, clingo_ast_attribute_terms, "", ",", "", false)
-                << print_list<AST::ASTVec>(ast, clingo_ast_attribute_condition, ": ", ", ", "", false);
+                << print_list<AST::ASTVec>(ast, clingo_ast_attribute_condition, ": ", ", ", "", empty);
             break;
         }
         case clingo_ast_type_body_aggregate: {
@@ -440,7 +465,11 @@ std::ostream &operator<<(std::ostream &out, AST const &ast) {
             break;
         }
         case clingo_ast_type_disjunction: {
-            out << print_list<AST::ASTVec>(ast, clingo_ast_attribute_elements, "", "; ", "", false);
+            auto const &elems = get<AST::ASTVec>(ast, clingo_ast_attribute_elements);
+            out << print_list<AST::ASTVec>(elems, "", "; ", "", false);
+            if (elems.size() == 1) {
+                print_colon(out, *elems.front());
+            }
             break;
         }
         // {{{1 theory atom
@@ -473,8 +502,10 @@ std::ostream &operator<<(std::ostream &out, AST const &ast) {
             break;
         }
         case clingo_ast_type_theory_atom_element: {
+            // an empty tuple has to be distinguished from no element
+            bool empty = get<AST::ASTVec>(ast, clingo_ast_attribute_terms).empty();
             out << print_list<AST::ASTVec>(ast, clingo_ast_attribute_terms, "", ",", "", false)
-                << print_list<AST::ASTVec>(ast, clingo_ast_attribute_condition, ": ", ", ", "", false);
+                << print_list<AST::ASTVec>(ast, clingo_ast_attribute_condition, ": ", ", ", "", empty);
             break;
         }
         case clingo_ast_type_theory_atom: {
-- 
2.43.0


From e73bfbab5294c03a0adbe9c69ecb888e9cdeb7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 36/53] fix: do not assert that a minimum or maximum lies
 between two intervals

---
 libgringo/src/output/aggregates.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libgringo/src/output/aggregates.cc b/libgringo/src/output/aggregates.cc
index 3587414..20a1c0c 100644
--- a/libgringo/src/output/aggregates.cc
+++ b/libgringo/src/output/aggregates.cc
@@ -258,7 +258,10 @@ LiteralId translateMinMax(DomainData &data, Translator &x, AggregateAnalyzer &re
             }
         }
         if (hasAntecedent) {
-            assert(!antecedent.empty());
+            if (antecedent.empty()) {
+                // NOTE: no element lies between the two intervals
+                continue;
+            }
             if (consequent.empty()) {
                 for (auto &lit : antecedent) {
                     conjunction.emplace_back(lit.negate());
-- 
2.43.0


From 7ad1af05fba9f2cda103025de30f4bdfc2a13566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 37/53] fix: let the location of a negated body aggregate start
 at the negation

---
 libgringo/gen/src/input/nongroundgrammar/grammar.cc | 12 ++++++------
 libgringo/src/input/nongroundgrammar.yy             | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/libgringo/gen/src/input/nongroundgrammar/grammar.cc b/libgringo/gen/src/input/nongroundgrammar/grammar.cc
index 101135a..edf9480 100644
--- a/libgringo/gen/src/input/nongroundgrammar/grammar.cc
+++ b/libgringo/gen/src/input/nongroundgrammar/grammar.cc
@@ -1848,7 +1848,7 @@ int parser::parse() {
 #line 635 "/home/kaminski/Documents/git/potassco/clingo/libgringo/src/input/nongroundgrammar.yy"
                     {
                         (yylhs.value.body) =
-                            lexer->bodyaggregate((yystack_[3].value.body), yystack_[1].location + yystack_[2].location,
+                            lexer->bodyaggregate((yystack_[3].value.body), yystack_[2].location + yystack_[1].location,
                                                  NAF::NOT, (yystack_[1].value.uid));
                     }
 #line 1586 "/home/kaminski/Documents/git/potassco/clingo/build/debug/libgringo/src/input/nongroundgrammar/grammar.cc"
@@ -1858,7 +1858,7 @@ int parser::parse() {
 #line 636 "/home/kaminski/Documents/git/potassco/clingo/libgringo/src/input/nongroundgrammar.yy"
                     {
                         (yylhs.value.body) =
-                            lexer->bodyaggregate((yystack_[3].value.body), yystack_[1].location + yystack_[2].location,
+                            lexer->bodyaggregate((yystack_[3].value.body), yystack_[2].location + yystack_[1].location,
                                                  NAF::NOT, (yystack_[1].value.uid));
                     }
 #line 1592 "/home/kaminski/Documents/git/potassco/clingo/build/debug/libgringo/src/input/nongroundgrammar/grammar.cc"
@@ -1868,7 +1868,7 @@ int parser::parse() {
 #line 637 "/home/kaminski/Documents/git/potassco/clingo/libgringo/src/input/nongroundgrammar.yy"
                     {
                         (yylhs.value.body) =
-                            lexer->bodyaggregate((yystack_[4].value.body), yystack_[1].location + yystack_[3].location,
+                            lexer->bodyaggregate((yystack_[4].value.body), yystack_[3].location + yystack_[1].location,
                                                  NAF::NOTNOT, (yystack_[1].value.uid));
                     }
 #line 1598 "/home/kaminski/Documents/git/potassco/clingo/build/debug/libgringo/src/input/nongroundgrammar/grammar.cc"
@@ -1878,7 +1878,7 @@ int parser::parse() {
 #line 638 "/home/kaminski/Documents/git/potassco/clingo/libgringo/src/input/nongroundgrammar.yy"
                     {
                         (yylhs.value.body) =
-                            lexer->bodyaggregate((yystack_[4].value.body), yystack_[1].location + yystack_[3].location,
+                            lexer->bodyaggregate((yystack_[4].value.body), yystack_[3].location + yystack_[1].location,
                                                  NAF::NOTNOT, (yystack_[1].value.uid));
                     }
 #line 1604 "/home/kaminski/Documents/git/potassco/clingo/build/debug/libgringo/src/input/nongroundgrammar/grammar.cc"
@@ -1923,7 +1923,7 @@ int parser::parse() {
 #line 646 "/home/kaminski/Documents/git/potassco/clingo/libgringo/src/input/nongroundgrammar.yy"
                     {
                         (yylhs.value.body) =
-                            lexer->bodyaggregate((yystack_[3].value.body), yystack_[1].location + yystack_[2].location,
+                            lexer->bodyaggregate((yystack_[3].value.body), yystack_[2].location + yystack_[1].location,
                                                  NAF::NOT, (yystack_[1].value.uid));
                     }
 #line 1634 "/home/kaminski/Documents/git/potassco/clingo/build/debug/libgringo/src/input/nongroundgrammar/grammar.cc"
@@ -1933,7 +1933,7 @@ int parser::parse() {
 #line 647 "/home/kaminski/Documents/git/potassco/clingo/libgringo/src/input/nongroundgrammar.yy"
                     {
                         (yylhs.value.body) =
-                            lexer->bodyaggregate((yystack_[4].value.body), yystack_[1].location + yystack_[3].location,
+                            lexer->bodyaggregate((yystack_[4].value.body), yystack_[3].location + yystack_[1].location,
                                                  NAF::NOTNOT, (yystack_[1].value.uid));
                     }
 #line 1640 "/home/kaminski/Documents/git/potassco/clingo/build/debug/libgringo/src/input/nongroundgrammar/grammar.cc"
diff --git a/libgringo/src/input/nongroundgrammar.yy b/libgringo/src/input/nongroundgrammar.yy
index 9ed07fc..b53d766 100644
--- a/libgringo/src/input/nongroundgrammar.yy
+++ b/libgringo/src/input/nongroundgrammar.yy
@@ -632,10 +632,10 @@ bodycomma
     | bodycomma[body] literal[lit] SEM                        { $$ = BUILDER.bodylit($body, $lit); }
     | bodycomma[body] lubodyaggregate[aggr] COMMA             { $$ = lexer->bodyaggregate($body, @aggr, NAF::POS, $aggr); }
     | bodycomma[body] lubodyaggregate[aggr] SEM               { $$ = lexer->bodyaggregate($body, @aggr, NAF::POS, $aggr); }
-    | bodycomma[body] NOT[l] lubodyaggregate[aggr] COMMA      { $$ = lexer->bodyaggregate($body, @aggr + @l, NAF::NOT, $aggr); }
-    | bodycomma[body] NOT[l] lubodyaggregate[aggr] SEM        { $$ = lexer->bodyaggregate($body, @aggr + @l, NAF::NOT, $aggr); }
-    | bodycomma[body] NOT[l] NOT lubodyaggregate[aggr] COMMA  { $$ = lexer->bodyaggregate($body, @aggr + @l, NAF::NOTNOT, $aggr); }
-    | bodycomma[body] NOT[l] NOT lubodyaggregate[aggr] SEM    { $$ = lexer->bodyaggregate($body, @aggr + @l, NAF::NOTNOT, $aggr); }
+    | bodycomma[body] NOT[l] lubodyaggregate[aggr] COMMA      { $$ = lexer->bodyaggregate($body, @l + @aggr, NAF::NOT, $aggr); }
+    | bodycomma[body] NOT[l] lubodyaggregate[aggr] SEM        { $$ = lexer->bodyaggregate($body, @l + @aggr, NAF::NOT, $aggr); }
+    | bodycomma[body] NOT[l] NOT lubodyaggregate[aggr] COMMA  { $$ = lexer->bodyaggregate($body, @l + @aggr, NAF::NOTNOT, $aggr); }
+    | bodycomma[body] NOT[l] NOT lubodyaggregate[aggr] SEM    { $$ = lexer->bodyaggregate($body, @l + @aggr, NAF::NOTNOT, $aggr); }
     | bodycomma[body] conjunction[conj] SEM                   { $$ = BUILDER.conjunction($body, @conj, $conj.first, $conj.second); }
     |                                                         { $$ = BUILDER.body(); }
     ;
@@ -643,8 +643,8 @@ bodycomma
 bodydot
     : bodycomma[body] literal[lit] DOT                      { $$ = BUILDER.bodylit($body, $lit); }
     | bodycomma[body] lubodyaggregate[aggr] DOT             { $$ = lexer->bodyaggregate($body, @aggr, NAF::POS, $aggr); }
-    | bodycomma[body] NOT[l] lubodyaggregate[aggr] DOT      { $$ = lexer->bodyaggregate($body, @aggr + @l, NAF::NOT, $aggr); }
-    | bodycomma[body] NOT[l] NOT lubodyaggregate[aggr] DOT  { $$ = lexer->bodyaggregate($body, @aggr + @l, NAF::NOTNOT, $aggr); }
+    | bodycomma[body] NOT[l] lubodyaggregate[aggr] DOT      { $$ = lexer->bodyaggregate($body, @l + @aggr, NAF::NOT, $aggr); }
+    | bodycomma[body] NOT[l] NOT lubodyaggregate[aggr] DOT  { $$ = lexer->bodyaggregate($body, @l + @aggr, NAF::NOTNOT, $aggr); }
     | bodycomma[body] conjunction[conj] DOT                 { $$ = BUILDER.conjunction($body, @conj, $conj.first, $conj.second); }
     ;
 
-- 
2.43.0


From 663d3288746c70be72034d8be705c584283130fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:58 +0000
Subject: [PATCH 38/53] fix: exit with the exit code of the run in python -m
 clingo

---
 libpyclingo/clingo/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/__main__.py b/libpyclingo/clingo/__main__.py
index 8087018..6bc0e4c 100644
--- a/libpyclingo/clingo/__main__.py
+++ b/libpyclingo/clingo/__main__.py
@@ -2,6 +2,8 @@
 Module providing the clingo-like pyclingo application.
 """
 
+import sys
+
 from clingo.application import Application, ApplicationOptions, Flag, clingo_main
 from clingo.script import enable_python
 
@@ -39,4 +41,4 @@ class PyClingoApplication(Application):
 
 
 if __name__ == "__main__":
-    clingo_main(PyClingoApplication())
+    sys.exit(clingo_main(PyClingoApplication()))
-- 
2.43.0


From a81e212a214a0951a5afb7841e9f5f72fc4945da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:37 +0000
Subject: [PATCH 39/53] fix: reject Lua numbers that are not representable as
 symbols instead of aborting or rounding

---
 libluaclingo/luaclingo.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index d337cf7..9591444 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -324,6 +324,18 @@ template <class T, class S> inline T numeric_cast(S s) {
 
 clingo_symbol_t luaToVal(lua_State *L, int idx);
 
+// Symbols can only represent the numbers of type int.
+clingo_symbol_t luaToNumber(lua_State *L, int idx) {
+    lua_Number num = luaL_checknumber(L, idx);
+    if (!(num >= std::numeric_limits<int>::min() && num <= std::numeric_limits<int>::max()) ||
+        num != static_cast<lua_Number>(static_cast<int>(num))) {
+        luaL_error(L, "number cannot be represented as symbol");
+    }
+    clingo_symbol_t sym;
+    clingo_symbol_create_number(static_cast<int>(num), &sym);
+    return sym;
+}
+
 #if LUA_VERSION_NUM < 502
 
 int lua_absindex(lua_State *L, int idx) { return (idx < 0) ? lua_gettop(L) + idx + 1 : idx; }
@@ -977,9 +989,7 @@ struct Term : Object<Term> {
         return newFun(L);
     }
     static int newNumber(lua_State *L) {
-        clingo_symbol_t sym;
-        clingo_symbol_create_number(numeric_cast<int>(luaL_checkinteger(L, 1)), &sym);
-        return Term::new_(L, sym);
+        return Term::new_(L, luaToNumber(L, 1));
     }
     static int newString(lua_State *L) {
         return Term::new_(L, call_c(L, clingo_symbol_create_string, luaL_checkstring(L, 1)));
@@ -1099,9 +1109,7 @@ clingo_symbol_t luaToVal(lua_State *L, int idx) {
             return call_c(L, clingo_symbol_create_string, lua_tostring(L, idx));
         }
         case LUA_TNUMBER: {
-            clingo_symbol_t ret;
-            clingo_symbol_create_number(numeric_cast<int>(lua_tointeger(L, idx)), &ret);
-            return ret;
+            return luaToNumber(L, idx);
         }
         case LUA_TUSERDATA: {
             bool check = false;
-- 
2.43.0


From 8e1fd85302c023d7eb55c9209eaebdc61b456cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 40/53] fix: do not abort on messages containing parts of
 multibyte characters

---
 libpyclingo/clingo/_internal.py   | 7 ++++++-
 libpyclingo/clingo/application.py | 3 ++-
 libpyclingo/clingo/core.py        | 4 ++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/libpyclingo/clingo/_internal.py b/libpyclingo/clingo/_internal.py
index cc84999..eccc1bb 100644
--- a/libpyclingo/clingo/_internal.py
+++ b/libpyclingo/clingo/_internal.py
@@ -66,6 +66,11 @@ def _to_str(c_str) -> str:
     return _ffi.string(c_str).decode()
 
 
+def _to_message(c_str) -> str:
+    # messages can contain parts of multibyte characters
+    return _ffi.string(c_str).decode(errors="replace")
+
+
 def _handle_error(ret: bool, handler=None):
     if not ret:
         code = _lib.clingo_error_code()
@@ -76,7 +81,7 @@ def _handle_error(ret: bool, handler=None):
         ):
             raise handler.error[1].with_traceback(handler.error[2])
         p_msg = _lib.clingo_error_message()
-        msg = "no message" if p_msg == _ffi.NULL else _ffi.string(p_msg).decode()
+        msg = "no message" if p_msg == _ffi.NULL else _to_message(p_msg)
         if code == _lib.clingo_error_bad_alloc:
             raise MemoryError(msg)
         raise RuntimeError(msg)
diff --git a/libpyclingo/clingo/application.py b/libpyclingo/clingo/application.py
index 955fe01..ff54e02 100644
--- a/libpyclingo/clingo/application.py
+++ b/libpyclingo/clingo/application.py
@@ -34,6 +34,7 @@ from ._internal import (
     _handle_error,
     _lib,
     _overwritten,
+    _to_message,
     _to_str,
 )
 from .control import Control
@@ -368,7 +369,7 @@ def _pyclingo_application_message_limit(data):
 @_ffi.def_extern(onerror=_cb_error_panic, name="pyclingo_application_logger")
 def _pyclingo_application_logger(code, message, data):
     app = _ffi.from_handle(data)[0]
-    return app.logger(MessageCode(code), _to_str(message))
+    return app.logger(MessageCode(code), _to_message(message))
 
 
 @_ffi.def_extern(onerror=_cb_error_print, name="pyclingo_application_main")
diff --git a/libpyclingo/clingo/core.py b/libpyclingo/clingo/core.py
index a16ede5..0445b53 100644
--- a/libpyclingo/clingo/core.py
+++ b/libpyclingo/clingo/core.py
@@ -5,7 +5,7 @@ Core functionality used throught the clingo package.
 from enum import Enum
 from typing import Callable, Tuple
 
-from ._internal import _cb_error_panic, _ffi, _lib, _to_str
+from ._internal import _cb_error_panic, _ffi, _lib, _to_message, _to_str
 
 __all__ = ["Logger", "MessageCode", "OrderedEnum", "TruthValue", "version"]
 
@@ -92,7 +92,7 @@ def _pyclingo_logger_callback(code, message, data):
     Low-level logger callback.
     """
     handler = _ffi.from_handle(data)
-    handler(MessageCode(code), _to_str(message))
+    handler(MessageCode(code), _to_message(message))
 
 
 class TruthValue(OrderedEnum):
-- 
2.43.0


From b98762ebf2d253bca53f2bfbbd7f7271454fb998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 41/53] fix: print messages of parsing functions to stderr if
 no logger is given in the C++ interface

---
 libclingo/clingo.hh | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 6702e36..edd74f9 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -2480,6 +2480,13 @@ template <class S, class P, class... Args> std::string to_string(S size, P print
     return {ret.begin(), ret.end() - 1};
 }
 
+inline void call_logger(clingo_warning_t code, char const *msg, void *data) {
+    try {
+        (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
+    } catch (...) {
+    } // NOLINT(bugprone-empty-catch)
+}
+
 } // namespace Detail
 
 // {{{2 signature
@@ -4156,13 +4163,7 @@ inline void parse_string(char const *program, Callback &&cb, clingo_control_t *c
                                  CLINGO_CALLBACK_CATCH(d.second);
                              },
                              &data, control,
-                             [](clingo_warning_t code, char const *msg, void *data) {
-                                 try {
-                                     (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
-                                 } catch (...) {
-                                 } // NOLINT
-                             },
-                             &logger, message_limit),
+                             logger ? Detail::call_logger : nullptr, &logger, message_limit),
                          data.second);
 }
 
@@ -4180,13 +4181,7 @@ inline void parse_files(StringSpan files, Callback &&cb, clingo_control_t *contr
                                  CLINGO_CALLBACK_CATCH(d.second);
                              },
                              &data, control,
-                             [](clingo_warning_t code, char const *msg, void *data) {
-                                 try {
-                                     (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
-                                 } catch (...) {
-                                 } // NOLINT
-                             },
-                             &logger, message_limit),
+                             logger ? Detail::call_logger : nullptr, &logger, message_limit),
                          data.second);
 }
 
@@ -4811,14 +4806,7 @@ inline static bool g_validate_options(void *adata) {
 inline Symbol parse_term(char const *str, Logger logger, unsigned message_limit) {
     clingo_symbol_t ret = 0;
     Detail::handle_error(clingo_parse_term(
-        str,
-        [](clingo_warning_t code, char const *msg, void *data) {
-            try {
-                (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
-            } catch (...) {
-            } // NOLINT(bugprone-empty-catch)
-        },
-        &logger, message_limit, &ret));
+        str, logger ? Detail::call_logger : nullptr, &logger, message_limit, &ret));
     return Symbol(ret);
 }
 
-- 
2.43.0


From fdcd5432e3736980d7554d886f74dc665d1923d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 42/53] fix: signed distance of theory atom iterators

---
 libclingo/clingo.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index edd74f9..7185c3f 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -892,7 +892,9 @@ class TheoryAtomIterator : private TheoryAtom {
     friend TheoryAtomIterator operator-(TheoryAtomIterator it, difference_type n) {
         return TheoryAtomIterator{it.atoms(), clingo_id_t(it.id() - n)};
     }
-    friend difference_type operator-(TheoryAtomIterator a, TheoryAtomIterator b) { return a.id() - b.id(); }
+    friend difference_type operator-(TheoryAtomIterator a, TheoryAtomIterator b) {
+        return static_cast<std::make_signed_t<clingo_id_t>>(a.id() - b.id());
+    }
     TheoryAtom operator*() { return *this; }
     TheoryAtom *operator->() { return this; }
     friend void swap(TheoryAtomIterator &lhs, TheoryAtomIterator &rhs) noexcept {
-- 
2.43.0


From 5f0f8592f6136f4ea583bbd54651d36863c9c07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 43/53] fix: add up weights of equal literals in reified
 weighted tuples

---
 libreify/src/program.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libreify/src/program.cc b/libreify/src/program.cc
index 5afc12f..cf46e4e 100644
--- a/libreify/src/program.cc
+++ b/libreify/src/program.cc
@@ -94,8 +94,15 @@ size_t Reifier::litTuple(LitSpan const &args) { return tuple(stepData_.litTuples
 size_t Reifier::weightLitTuple(WeightLitSpan const &args) {
     WLVec lits;
     lits.reserve(args.size);
+    // facts form a set; so the weights of equal literals have to be added up
+    std::unordered_map<Lit_t, size_t> index;
     for (auto &x : args) {
-        lits.emplace_back(x.lit, x.weight);
+        auto ret = index.emplace(x.lit, lits.size());
+        if (ret.second) {
+            lits.emplace_back(x.lit, x.weight);
+        } else {
+            lits[ret.first->second].second += x.weight;
+        }
     }
     return tuple(stepData_.weightLitTuples, "weighted_literal_tuple", std::move(lits));
 }
-- 
2.43.0


From c0f9de7e911719a71779fa3de345167247bd4633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 44/53] fix: do not truncate costs of models to 32 bits

---
 libclingo/clingo/control.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo/clingo/control.hh b/libclingo/clingo/control.hh
index 0e33a2f..d07ad5d 100644
--- a/libclingo/clingo/control.hh
+++ b/libclingo/clingo/control.hh
@@ -89,7 +89,7 @@ enum class ModelType : clingo_model_type_t {
     CautiousConsequences = clingo_model_type_cautious_consequences
 };
 using Model = clingo_model;
-using Int64Vec = std::vector<Potassco::Weight_t>;
+using Int64Vec = std::vector<int64_t>;
 
 } // namespace Gringo
 
-- 
2.43.0


From acdeafb629728e6b70d902a651876dd2c1d617b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 45/53] fix: reserve Lua stack space for the arguments of
 external functions

---
 libluaclingo/luaclingo.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 9591444..cd973f6 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1139,6 +1139,7 @@ struct LuaCallArgs_ {
 
 int luacall_(lua_State *L) {
     auto &args = *static_cast<LuaCallArgs_ *>(lua_touserdata(L, 1));
+    luaL_checkstack(L, numeric_cast<int>(args.size) + LUA_MINSTACK, "too many arguments");
     int context = 0;
     if (!lua_isnil(L, 2)) {
         context = 1;
-- 
2.43.0


From 2714b3192b52b968ea252106b33d1a6b71e4e904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 46/53] fix: pass on exceptions whose messages cannot be
 encoded or computed

---
 libpyclingo/clingo/_internal.py | 10 +++++++++-
 libpyclingo/clingo/script.py    |  2 +-
 libpyclingo/clingo/theory.py    |  4 ++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/libpyclingo/clingo/_internal.py b/libpyclingo/clingo/_internal.py
index eccc1bb..52ee71a 100644
--- a/libpyclingo/clingo/_internal.py
+++ b/libpyclingo/clingo/_internal.py
@@ -87,12 +87,20 @@ def _handle_error(ret: bool, handler=None):
         raise RuntimeError(msg)
 
 
+def _error_message(exc_value) -> bytes:
+    # messages can contain surrogates and computing them can fail
+    try:
+        return str(exc_value).encode(errors="replace")
+    except Exception:  # pylint: disable=broad-except
+        return b"error in callback"
+
+
 def _cb_error_handler(param: str):
     def handler(exception, exc_value, traceback) -> bool:
         if traceback is not None:
             handler = _ffi.from_handle(traceback.tb_frame.f_locals[param])
             handler.error = (exception, exc_value, traceback)
-            _lib.clingo_set_error(_lib.clingo_error_unknown, str(exc_value).encode())
+            _lib.clingo_set_error(_lib.clingo_error_unknown, _error_message(exc_value))
         else:
             _lib.clingo_set_error(
                 _lib.clingo_error_runtime, "error in callback".encode()
diff --git a/libpyclingo/clingo/script.py b/libpyclingo/clingo/script.py
index 7f8b225..629caf4 100644
--- a/libpyclingo/clingo/script.py
+++ b/libpyclingo/clingo/script.py
@@ -64,7 +64,7 @@ __all__ = ["Script", "enable_python", "register_script"]
 
 def _cb_error_top_level(exception, exc_value, traceback):
     msg = "".join(format_exception(exception, exc_value, traceback))
-    _lib.clingo_set_error(_lib.clingo_error_runtime, msg.encode())
+    _lib.clingo_set_error(_lib.clingo_error_runtime, msg.encode(errors="replace"))
     return False
 
 
diff --git a/libpyclingo/clingo/theory.py b/libpyclingo/clingo/theory.py
index c78325c..1d06fff 100644
--- a/libpyclingo/clingo/theory.py
+++ b/libpyclingo/clingo/theory.py
@@ -76,7 +76,7 @@ bool PREFIX_configure(PREFIX_theory_t *theory, char const *key, char const *valu
 
 from typing import Any, Callable, Iterator, Optional, Tuple, Union
 
-from ._internal import _ffi, _handle_error, _lib
+from ._internal import _error_message, _ffi, _handle_error, _lib
 from .application import ApplicationOptions
 from .ast import AST
 from .control import Control
@@ -140,7 +140,7 @@ class Theory:
         if traceback is not None:
             cb_data = self._ffi.from_handle(traceback.tb_frame.f_locals["data"])
             cb_data.error = (exception, exc_value, traceback)
-            _lib.clingo_set_error(_lib.clingo_error_unknown, str(exc_value).encode())
+            _lib.clingo_set_error(_lib.clingo_error_unknown, _error_message(exc_value))
         else:
             _lib.clingo_set_error(
                 _lib.clingo_error_runtime, "error in callback".encode()
-- 
2.43.0


From 626b715acddc07125120e0fd3efc538e4a49f6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 47/53] fix: pass on exceptions raised by the callback of
 Theory.rewrite_ast

---
 libpyclingo/clingo/theory.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/libpyclingo/clingo/theory.py b/libpyclingo/clingo/theory.py
index 1d06fff..87fbe80 100644
--- a/libpyclingo/clingo/theory.py
+++ b/libpyclingo/clingo/theory.py
@@ -263,12 +263,15 @@ class Theory:
 
         cb_data = _CBData(add)
         handle = self._ffi.new_handle(cb_data)
-        self.__call0(
-            "rewrite_ast",
-            self._theory,
-            self._ffi.cast("clingo_ast_t*", stm._rep),
-            self.__get("rewrite", "py"),
-            handle,
+        _handle_error(
+            self.__call(
+                "rewrite_ast",
+                self._theory,
+                self._ffi.cast("clingo_ast_t*", stm._rep),
+                self.__get("rewrite", "py"),
+                handle,
+            ),
+            cb_data,
         )
 
     def register_options(self, options: ApplicationOptions) -> None:
-- 
2.43.0


From a7adad42d508d3546d9c7744286d49c013a06698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:56 +0000
Subject: [PATCH 48/53] fix: Lua backends can be closed only once and not be
 used afterwards

---
 libluaclingo/luaclingo.cc | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index cd973f6..227bf9f 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -2109,19 +2109,28 @@ struct Backend : Object<Backend> {
     static constexpr const char *typeName = "clingo.Backend";
     static luaL_Reg const meta[];
 
+    static Backend &get_open(lua_State *L) {
+        auto &self = get_self(L);
+        if (self.backend == nullptr) {
+            luaL_error(L, "backend has been closed");
+        }
+        return self;
+    }
+
     static int addAtom(lua_State *L) {
+        auto &self = get_open(L);
         symbol_wrapper sym;
         clingo_symbol_t *symp = nullptr;
         if (!lua_isnone(L, 2) && !lua_isnil(L, 2)) {
             luaToCpp(L, 2, sym);
             symp = &sym.symbol;
         }
-        lua_pushinteger(L, call_c(L, clingo_backend_add_atom, get_self(L).backend, symp));
+        lua_pushinteger(L, call_c(L, clingo_backend_add_atom, self.backend, symp));
         return 1;
     }
 
     static int addRule(lua_State *L) {
-        auto &self = get_self(L);
+        auto &self = get_open(L);
         auto *head = AnyWrap::new_<std::vector<clingo_atom_t>>(L);    // +1
         auto *body = AnyWrap::new_<std::vector<clingo_literal_t>>(L); // +1
         bool choice = false;
@@ -2144,7 +2153,7 @@ struct Backend : Object<Backend> {
     }
 
     static int addExternal(lua_State *L) {
-        auto &self = get_self(L);
+        auto &self = get_open(L);
         clingo_atom_t atom;
         clingo_external_type_t value = clingo_external_type_false;
         luaToCpp(L, 2, atom);
@@ -2156,7 +2165,7 @@ struct Backend : Object<Backend> {
     }
 
     static int addWeightRule(lua_State *L) {
-        auto &self = get_self(L);
+        auto &self = get_open(L);
         auto *head = AnyWrap::new_<std::vector<clingo_atom_t>>(L); // +1
         clingo_weight_t lower;
         auto *body = AnyWrap::new_<std::vector<clingo_weighted_literal_t>>(L); // +1
@@ -2181,7 +2190,7 @@ struct Backend : Object<Backend> {
     }
 
     static int addMinimize(lua_State *L) {
-        auto &self = get_self(L);
+        auto &self = get_open(L);
         clingo_weight_t priority;
         auto *body = AnyWrap::new_<std::vector<clingo_weighted_literal_t>>(L); // +1
         luaL_checktype(L, 2, LUA_TTABLE);
@@ -2198,7 +2207,11 @@ struct Backend : Object<Backend> {
 
     static int close(lua_State *L) {
         auto &self = get_self(L);
-        handle_c_error(L, clingo_backend_end(self.backend));
+        if (self.backend != nullptr) {
+            auto *backend = self.backend;
+            self.backend = nullptr;
+            handle_c_error(L, clingo_backend_end(backend));
+        }
         return 0;
     }
 };
-- 
2.43.0


From d186dfacd2ced9cdbc8e53b141da33c23b8ce3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:56 +0000
Subject: [PATCH 49/53] fix: visit the elements of Lua sequences in order

---
 libluaclingo/luaclingo.cc | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 227bf9f..da31ab8 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -344,12 +344,25 @@ int lua_absindex(lua_State *L, int idx) { return (idx < 0) ? lua_gettop(L) + idx
 //     return lua_objlen(L, index);
 // }
 
-// size_t lua_rawlen(lua_State *L, int index) {
-//     return lua_objlen(L, index);
-// }
+size_t lua_rawlen(lua_State *L, int index) { return lua_objlen(L, index); }
 
 #endif
 
+// Like lua_next but visits the elements of a sequence in order. (The order in
+// which lua_next visits elements stored in the hash part of a table is
+// unspecified.)
+static int lua_seqnext(lua_State *L, int idx) {
+    idx = lua_absindex(L, idx);
+    lua_Integer i = lua_isnil(L, -1) ? 1 : lua_tointeger(L, -1) + 1;
+    lua_pop(L, 1);
+    if (static_cast<size_t>(i) > lua_rawlen(L, idx)) {
+        return 0;
+    }
+    lua_pushinteger(L, i);
+    lua_rawgeti(L, idx, numeric_cast<int>(i));
+    return 1;
+}
+
 static int luaPushKwArg(lua_State *L, int index, int pos, char const *name, bool optional) {
     index = lua_absindex(L, index);
     lua_pushinteger(L, pos);
@@ -414,7 +427,7 @@ template <class T> void luaToCpp(lua_State *L, int index, std::vector<T> &x) {
         luaL_error(L, "table expected");
     }
     lua_pushnil(L);
-    while (lua_next(L, index) != 0) {
+    while (lua_seqnext(L, index) != 0) {
         auto &y = protect(L, [&x]() -> T & {
             x.emplace_back();
             return x.back();
@@ -430,19 +443,19 @@ template <class T, class U> void luaToCpp(lua_State *L, int index, std::pair<T,
         luaL_error(L, "table expected");
     }
     lua_pushnil(L);
-    if (lua_next(L, index) != 0) {
+    if (lua_seqnext(L, index) != 0) {
         luaToCpp(L, -1, x.first);
         lua_pop(L, 1);
     } else {
         luaL_error(L, "tuple expected");
     }
-    if (lua_next(L, index) != 0) {
+    if (lua_seqnext(L, index) != 0) {
         luaToCpp(L, -1, x.second);
         lua_pop(L, 1);
     } else {
         luaL_error(L, "tuple expected");
     }
-    if (lua_next(L, index) != 0) {
+    if (lua_seqnext(L, index) != 0) {
         luaL_error(L, "tuple expected");
     }
 }
@@ -476,7 +489,7 @@ std::vector<clingo_symbol_t> *luaToVals(lua_State *L, int idx) {
     luaL_checktype(L, idx, LUA_TTABLE);
     std::vector<clingo_symbol_t> *vals = AnyWrap::new_<std::vector<clingo_symbol_t>>(L);
     lua_pushnil(L);
-    while (lua_next(L, idx) != 0) {
+    while (lua_seqnext(L, idx) != 0) {
         clingo_symbol_t sym = luaToVal(L, -1);
         protect(L, [sym, &vals]() { vals->push_back(sym); });
         lua_pop(L, 1);
@@ -1154,7 +1167,7 @@ int luacall_(lua_State *L) {
     lua_call(L, numeric_cast<int>(args.size + context), 1);
     if (lua_type(L, -1) == LUA_TTABLE) {
         lua_pushnil(L);
-        while (lua_next(L, -2)) {
+        while (lua_seqnext(L, -2)) {
             clingo_symbol_t val = luaToVal(L, -1);
             handle_c_error(L, args.symbol_callback(&val, 1, args.data));
             lua_pop(L, 1);
@@ -1402,7 +1415,7 @@ static std::vector<clingo_literal_t> *luaToLits(lua_State *L, int tableIdx, clin
     tableIdx = lua_absindex(L, tableIdx);
     std::vector<clingo_literal_t> *lits = AnyWrap::new_<std::vector<clingo_literal_t>>(L); // +1
     lua_pushnil(L);                                                                        // +1
-    while (lua_next(L, tableIdx) != 0) {                                                   // +1/-1
+    while (lua_seqnext(L, tableIdx) != 0) {                                                   // +1/-1
         if (lua_isnumber(L, -1)) {
             clingo_literal_t lit;
             luaToCpp(L, -1, lit);
@@ -2727,7 +2740,7 @@ struct PropagateControl : Object<PropagateControl> {
         int lits_index = lua_gettop(L);
         auto lits = AnyWrap::new_<std::vector<clingo_literal_t>>(L);             // +1
         lua_pushnil(L);                                                          // +1
-        while (lua_next(L, -3)) {                                                // -1
+        while (lua_seqnext(L, -3)) {                                                // -1
             auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, -1)); // +0
             PROTECT(lits->emplace_back(lit));
             lua_pop(L, 1);
@@ -3411,7 +3424,7 @@ struct ControlWrap : Object<ControlWrap> {
         char const *prg = luaL_checkstring(L, 4);
         auto vals = AnyWrap::new_<std::vector<std::string>>(L); // +1
         lua_pushnil(L);                                         // +1
-        while (lua_next(L, 3) != 0) {                           // +1/-1
+        while (lua_seqnext(L, 3) != 0) {                           // +1/-1
             char const *val = luaL_checkstring(L, -1);
             protect(L, [val, &vals]() { vals->push_back(val); });
             lua_pop(L, 1); // -1
-- 
2.43.0


From d4c06967074144bfb0e300576b7a07be37823feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:04 +0000
Subject: [PATCH 50/53] fix: reject sequences with members of the wrong type
 before changing an AST attribute

---
 libpyclingo/clingo/ast.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libpyclingo/clingo/ast.py b/libpyclingo/clingo/ast.py
index 5223024..d4b6b24 100644
--- a/libpyclingo/clingo/ast.py
+++ b/libpyclingo/clingo/ast.py
@@ -1120,8 +1120,10 @@ class AST:
             if isinstance(value, StrSequence):
                 if attr_id == value._attribute and self._rep == value._rep:
                     value = list(value)
-            elif not isinstance(value, list):
+            else:
                 value = list(value)
+                if not all(isinstance(x, str) for x in value):
+                    raise TypeError("sequence of strings expected")
             str_seq = StrSequence(self._rep, attr_id)
             str_seq.clear()
             str_seq.extend(value)
@@ -1130,8 +1132,10 @@ class AST:
             if isinstance(value, ASTSequence):
                 if attr_id == value._attribute and self._rep == value._rep:
                     value = list(value)
-            elif not isinstance(value, list):
+            else:
                 value = list(value)
+                if not all(isinstance(x, AST) for x in value):
+                    raise TypeError("sequence of ASTs expected")
             ast_seq = ASTSequence(self._rep, attr_id)
             ast_seq.clear()
             ast_seq.extend(value)
-- 
2.43.0


From 49a20042929f558b5bdd246c1f5603a04b2dad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:33 +0000
Subject: [PATCH 51/53] fix: let sequences of AST nodes support all rich
 comparisons

---
 libpyclingo/clingo/ast.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libpyclingo/clingo/ast.py b/libpyclingo/clingo/ast.py
index d4b6b24..0f39885 100644
--- a/libpyclingo/clingo/ast.py
+++ b/libpyclingo/clingo/ast.py
@@ -690,6 +690,7 @@ class UnaryOperator(IntEnum):
     """
 
 
+@total_ordering
 class ASTSequence(abc.MutableSequence):
     """
     A sequence holding `AST` nodes.
@@ -705,9 +706,13 @@ class ASTSequence(abc.MutableSequence):
         _lib.clingo_ast_acquire(self._rep)
 
     def __eq__(self, other):
+        if not isinstance(other, abc.Iterable):
+            return NotImplemented
         return tuple(self) == tuple(other)
 
     def __lt__(self, other):
+        if not isinstance(other, abc.Iterable):
+            return NotImplemented
         return tuple(self) < tuple(other)
 
     def __hash__(self):
-- 
2.43.0


From a79ba82eb2c2ac65ce91caff3e759d98caf65aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:51 +0000
Subject: [PATCH 52/53] fix: compare theory terms, elements and atoms with
 objects of other types

---
 libpyclingo/clingo/theory_atoms.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libpyclingo/clingo/theory_atoms.py b/libpyclingo/clingo/theory_atoms.py
index f919c77..7c575b3 100644
--- a/libpyclingo/clingo/theory_atoms.py
+++ b/libpyclingo/clingo/theory_atoms.py
@@ -80,9 +80,13 @@ class TheoryTerm:
         return self._idx
 
     def __eq__(self, other):
+        if not isinstance(other, TheoryTerm):
+            return NotImplemented
         return self._idx == other._idx
 
     def __lt__(self, other):
+        if not isinstance(other, TheoryTerm):
+            return NotImplemented
         return self._idx < other._idx
 
     def __str__(self):
@@ -159,9 +163,13 @@ class TheoryElement:
         return self._idx
 
     def __eq__(self, other):
+        if not isinstance(other, TheoryElement):
+            return NotImplemented
         return self._idx == other._idx
 
     def __lt__(self, other):
+        if not isinstance(other, TheoryElement):
+            return NotImplemented
         return self._idx < other._idx
 
     def __str__(self):
@@ -235,9 +243,13 @@ class TheoryAtom:
         return self._idx
 
     def __eq__(self, other):
+        if not isinstance(other, TheoryAtom):
+            return NotImplemented
         return self._idx == other._idx
 
     def __lt__(self, other):
+        if not isinstance(other, TheoryAtom):
+            return NotImplemented
         return self._idx < other._idx
 
     def __str__(self):
-- 
2.43.0


From 3dda3460f2d4ce9e5ca66f2819b0586353c72c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:12 +0000
Subject: [PATCH 53/53] fix: separate classically negated atoms from colons in
 text output

A colon directly followed by a classically negated atom is read as the token
":-", so that the text written for conditions in aggregates, conditional
literals, disjunctions, and the show, edge, heuristic, and minimize statements
could not be read back.
---
 libgringo/gringo/output/literal.hh |  3 +++
 libgringo/src/output/literals.cc   | 24 ++++++++++++++++++------
 libgringo/src/output/statements.cc | 14 ++++++++------
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/libgringo/gringo/output/literal.hh b/libgringo/gringo/output/literal.hh
index a71bdab..4c0c258 100644
--- a/libgringo/gringo/output/literal.hh
+++ b/libgringo/gringo/output/literal.hh
@@ -285,6 +285,9 @@ class LiteralId {
         uint64_t repr_;
     };
 };
+
+//! Prints a colon to be followed by the given literal.
+void printColon(PrintPlain out, LiteralId lit);
 using LitVec = std::vector<LiteralId>;
 
 // {{{1 declaration of Literal
diff --git a/libgringo/src/output/literals.cc b/libgringo/src/output/literals.cc
index 5b56086..e017423 100644
--- a/libgringo/src/output/literals.cc
+++ b/libgringo/src/output/literals.cc
@@ -33,6 +33,14 @@
 namespace Gringo {
 namespace Output {
 
+void printColon(PrintPlain out, LiteralId lit) {
+    out << ":";
+    // a classically negated atom directly after the colon would be read as the token ":-"
+    if (lit.type() == AtomType::Predicate && lit.sign() == NAF::POS && out.domain.predDom(lit.domain()).sig().sign()) {
+        out << " ";
+    }
+}
+
 // {{{1 definition of functions to work with BodyAggregates
 
 namespace {
@@ -41,22 +49,26 @@ void printLit(PrintPlain out, LiteralId lit) { call(out.domain, lit, &Literal::p
 
 void printCond(PrintPlain out, TupleId tuple, Formula::value_type cond) {
     print_comma(out, out.domain.tuple(tuple), ",");
-    out << ":";
     auto rng = out.domain.clause(cond.first, cond.second);
+    if (rng.size > 0) {
+        printColon(out, *begin(rng));
+    } else {
+        out << ":";
+    }
     print_comma(out, rng, ",", [](PrintPlain out, LiteralId lit) { printLit(out, lit); });
 }
 
 void printCond(PrintPlain out, TupleId tuple, HeadFormula::value_type const &cond) {
     print_comma(out, out.domain.tuple(tuple), ",");
-    out << ":";
     if (cond.first.valid()) {
+        printColon(out, cond.first);
         printLit(out, cond.first);
     } else {
-        out << "#true";
+        out << ":#true";
     }
     if (cond.second.second > 0) {
-        out << ":";
         auto rng = out.domain.clause(cond.second.first, cond.second.second);
+        printColon(out, *begin(rng));
         print_comma(out, rng, ",", [](PrintPlain out, LiteralId lit) { printLit(out, lit); });
     }
 }
@@ -581,7 +593,7 @@ void ConjunctionElement::print(PrintPlain out) const {
             print_comma(out, heads_, "|", pc);
         }
         if (bodies_.front().second > 0) {
-            out << ":";
+            printColon(out, *begin(out.domain.clause(bodies_.front())));
             auto pc = [](PrintPlain out, ClauseId id) {
                 if (id.second == 0) {
                     out << "#true";
@@ -672,7 +684,7 @@ void DisjunctionElement::print(PrintPlain out) const {
             print_comma(out, heads_, "&", pc);
         }
         if (bodies_.front().second > 0) {
-            out << ":";
+            printColon(out, *begin(out.domain.clause(bodies_.front())));
             auto pc = [](PrintPlain out, ClauseId id) {
                 if (id.second == 0) {
                     out << "#true";
diff --git a/libgringo/src/output/statements.cc b/libgringo/src/output/statements.cc
index e13e122..1629460 100644
--- a/libgringo/src/output/statements.cc
+++ b/libgringo/src/output/statements.cc
@@ -226,7 +226,7 @@ void ShowStatement::print(PrintPlain out, char const *prefix) const {
     out << prefix;
     out << "#show " << term_;
     if (!body_.empty()) {
-        out << ":";
+        printColon(out, body_.front());
     }
     printPlainBody(out, body_);
     out << ".\n";
@@ -285,7 +285,7 @@ void HeuristicStatement::print(PrintPlain out, char const *prefix) const {
     out << prefix << "#heuristic ";
     call(out.domain, atom_, &Literal::printPlain, out);
     if (!body_.empty()) {
-        out << ":";
+        printColon(out, body_.front());
     }
     printPlainBody(out, body_);
     out << ".[" << value_ << "@" << priority_ << "," << toString(mod_) << "]\n";
@@ -318,7 +318,7 @@ void EdgeStatement::print(PrintPlain out, char const *prefix) const {
     out << prefix;
     out << "#edge(" << u_ << "," << v_ << ")";
     if (!body_.empty()) {
-        out << ":";
+        printColon(out, body_.front());
     }
     printPlainBody(out, body_);
     out << ".\n";
@@ -541,7 +541,8 @@ class Atomtab : public Statement {
     void print(PrintPlain out, char const *prefix) const override {
         out << prefix << "#show " << (Symbol)*atom_;
         if (!atom_->fact()) {
-            out << ":" << (Symbol)*atom_;
+            auto sym = static_cast<Symbol>(*atom_);
+            out << (sym.sig().sign() ? ": " : ":") << sym;
         }
         out << ".\n";
     }
@@ -652,7 +653,7 @@ Symtab::Symtab(Symbol symbol, LitVec body) : symbol_(symbol), body_(std::move(bo
 void Symtab::print(PrintPlain out, char const *prefix) const {
     out << prefix << "#show " << symbol_;
     if (!body_.empty()) {
-        out << ":";
+        printColon(out, body_.front());
     }
     printPlainBody(out, body_);
     out << ".\n";
@@ -697,7 +698,8 @@ void Minimize::print(PrintPlain out, char const *prefix) const {
     int i = 0;
     out << prefix << "#minimize{";
     auto f = [&i, this](PrintPlain &out, LitWeightVec::value_type const &x) {
-        out << x.second << "@" << priority_ << "," << i++ << ":";
+        out << x.second << "@" << priority_ << "," << i++;
+        printColon(out, x.first);
         call(out.domain, x.first, &Literal::printPlain, out);
     };
     print_comma(out, lits_, ";", f);
-- 
2.43.0

