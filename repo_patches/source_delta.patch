From 2fd8cc9dd00937fef4ddfe7fb11f97990e5f8184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 01/17] fix: leave no value behind when slices, injections and
 built-ins are evaluated for no value; expand default_extended result

---
 sources/interpreter/atlas-types.w |  9 ++++++---
 sources/interpreter/axis.w        | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/sources/interpreter/atlas-types.w b/sources/interpreter/atlas-types.w
index d24d3d2..ac62ccc 100644
--- a/sources/interpreter/atlas-types.w
+++ b/sources/interpreter/atlas-types.w
@@ -371,11 +371,13 @@ void is_Cartan_matrix_wrapper (eval_level l)
   try
   {
     dynkin::Lie_type(m->val); // this may |throw| an |error::Cartan_error|
-    push_value(whether(true));
+    if (l!=eval_level::no_value)
+      push_value(whether(true));
   }
   catch (error::Cartan_error&)
   {
-    push_value(whether(false));
+    if (l!=eval_level::no_value)
+      push_value(whether(false));
   }
 }
 
@@ -7586,7 +7588,8 @@ void default_extend_wrapper(eval_level l)
   push_value(std::make_shared<vector_value>(std::move(E.tau)));
   push_value(std::make_shared<vector_value>(std::move(E.l)));
   push_value(std::make_shared<vector_value>(std::move(E.t)));
-  wrap_tuple<4>();
+  if (l==eval_level::single_value)
+    wrap_tuple<4>();
 }
 
 @ The function |shift_flip| tells whether the default extension of a parameter
diff --git a/sources/interpreter/axis.w b/sources/interpreter/axis.w
index 79499ad..abd1b96 100644
--- a/sources/interpreter/axis.w
+++ b/sources/interpreter/axis.w
@@ -4819,6 +4819,8 @@ void row_slice<flags>::evaluate(level l) const
     upb = n - upb;
   if (lwb<0 or upb>=0 and static_cast<size_t>(upb)>n)
     slice_range_error(lwb,upb,n,flags,this);
+  if (l==level::no_value)
+    return;
   if (lwb>=upb)
   {@; push_value(std::make_shared<row_value>(0)); return; }
   push_value( (flags&0x1)==0
@@ -4843,6 +4845,8 @@ void vector_slice<flags>::evaluate(level l) const
     upb = n - upb;
   if (lwb<0 or (upb>=0 and static_cast<size_t>(upb)>n))
     slice_range_error(lwb,upb,n,flags,this);
+  if (l==level::no_value)
+    return;
   if (lwb>=upb)
   {@; push_value(std::make_shared<vector_value>(int_Vector(0))); return; }
   push_value( (flags&0x1)==0
@@ -4870,6 +4874,8 @@ void ratvec_slice<flags>::evaluate(level l) const
     upb = n - upb;
   if (lwb<0 or (upb>=0 and static_cast<size_t>(upb)>n))
     slice_range_error(lwb,upb,n,flags,this);
+  if (l==level::no_value)
+    return;
   if (lwb>=upb)
   @/{@; push_value(std::make_shared<rational_vector_value>(RatWeight(0)));
       return;
@@ -4898,6 +4904,8 @@ void string_slice<flags>::evaluate(level l) const
     upb = n - upb;
   if (lwb<0 or (upb>=0 and static_cast<size_t>(upb)>n))
     slice_range_error(lwb,upb,n,flags,this);
+  if (l==level::no_value)
+    return;
   if (lwb>=upb)
   {@; push_value(std::make_shared<string_value>(std::string())); return; }
   push_value
@@ -4926,6 +4934,8 @@ void matrix_slice<flags>::evaluate(level l) const
     upb = n - upb;
   if (lwb<0 or (upb>=0 and static_cast<size_t>(upb)>n))
     slice_range_error(lwb,upb,n,flags,this);
+  if (l==level::no_value)
+    return;
   if (lwb>=upb)
 @/{@; push_value(std::make_shared<matrix_value>(int_Matrix(m.n_rows(),0)));
       return; }
@@ -5089,6 +5099,8 @@ the proper tag (number), and then push that to the stack again.
 @< Function def... @>=
 void injector_value::apply(eval_level l) const
 { shared_value component = pop_value();
+  if (l==eval_level::no_value)
+    return;
   push_value(std::make_shared<union_value>(position,std::move(component),id));
 }
 
@@ -5127,6 +5139,8 @@ contribute to an error back-trace.
 @< Function def... @>=
 void injector_call::evaluate(level l) const
 {
+  if (l==level::no_value)
+  {@; argument->void_eval(); return; }
   argument->eval(); // evaluate arguments as a single value
   push_value(std::make_shared<union_value>(position,pop_value(),id));
 }
-- 
2.43.0


From f8e74d63f00c9c6f294f274baf81cead8b7baa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 02/17] fix: report an error when a local variable emptied by a
 failed operation is used again

---
 sources/interpreter/axis.w | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/sources/interpreter/axis.w b/sources/interpreter/axis.w
index abd1b96..8c5e1ee 100644
--- a/sources/interpreter/axis.w
+++ b/sources/interpreter/axis.w
@@ -1587,6 +1587,11 @@ public:
 @ The method |local_identifier::evaluate| looks up a value in the evaluation
 context |frame::current|, by calling the method |evaluation_context::elem|.
 
+A variable that was emptied by a pilfering evaluation remains empty if the
+operation it was used in then throws an error. As with global identifiers, a
+later attempt to use its value (which is possible if the variable is captured in
+a closure that survives the error) should result in an error message.
+
 @< Function definitions @>=
 template<>
   void local_identifier<false>::print(std::ostream& out) const
@@ -1595,13 +1600,24 @@ template<>
   void local_identifier<true>::print(std::ostream& out) const
 @+{@; out << '$' << name(); }
 
+static shared_value& filled_local (size_t depth, size_t offset, id_type id)
+{ shared_value& result = frame::current->elem(depth,offset);
+  if (result.get()==nullptr)
+  { std::ostringstream o;
+    o << "Using uninitialized variable '" << main_hash_table->name_of(id)
+      << '\'';
+    throw runtime_error(o.str());
+  }
+  return result;
+}
+
 template<bool pilfer>
   void local_identifier<pilfer>::evaluate(level l) const
-{
+{ shared_value& val = filled_local(depth,offset,code);
   if (pilfer)
-    push_expanded(l,std::move(frame::current->elem(depth,offset)));
+    push_expanded(l,std::move(val));
   else
-    push_expanded(l,frame::current->elem(depth,offset));
+    push_expanded(l,val);
 }
 
 @*1 Type-checking applied identifiers.
@@ -8478,18 +8494,18 @@ then |assign| or |transform| does its job.
 template <bool reversed>
 void local_component_assignment<reversed>::evaluate(eval_level l)
   const
-{@; base::assign (l,frame::current->elem(depth,offset),kind); }
+{@; base::assign (l,filled_local(depth,offset,this->lhs),kind); }
 @)
 template <bool reversed>
 void local_component_transform<reversed>::evaluate(eval_level l)
   const
-{@; base::transform (l,frame::current->elem(depth,offset)); }
+{@; base::transform (l,filled_local(depth,offset,this->lhs)); }
 @)
 void local_field_assignment::evaluate(eval_level l) const
-{@; assign (l,frame::current->elem(depth,offset)); }
+{@; assign (l,filled_local(depth,offset,lhs)); }
 @)
 void local_field_transform::evaluate(eval_level l) const
-{@; transform (l,frame::current->elem(depth,offset)); }
+{@; transform (l,filled_local(depth,offset,lhs)); }
 
 @ The |assign| method, which will also be called for local component
 assignments, starts by the common work of evaluating the (component) value to be
-- 
2.43.0


From fb9e8449a07e79fd79b971797828b8671f38d73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 03/17] fix: evaluate right hand side of field assignment
 before taking sole ownership of the tuple

---
 sources/interpreter/axis.w | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/interpreter/axis.w b/sources/interpreter/axis.w
index 8c5e1ee..03214b6 100644
--- a/sources/interpreter/axis.w
+++ b/sources/interpreter/axis.w
@@ -8553,8 +8553,8 @@ void component_assignment<reversed>::assign
 }
 @)
 void field_assignment::assign (level lev,shared_value& tupple) const
-{ shared_value& field=uniquify<tuple_value>(tupple)->val[position];
-  rhs->eval();
+{ rhs->eval(); // this may share |tupple|, so |uniquify| must come afterwards
+  shared_value& field=uniquify<tuple_value>(tupple)->val[position];
   push_expanded(lev,field=pop_value());
 }
 
-- 
2.43.0


From 8b3c9b4bb34b49a207e3a9e35e207ce234ca2d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 04/17] fix: keep component in place while transforming it, so
 that an error does not leave a null component

---
 sources/interpreter/axis.w | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sources/interpreter/axis.w b/sources/interpreter/axis.w
index 03214b6..e4b6d1e 100644
--- a/sources/interpreter/axis.w
+++ b/sources/interpreter/axis.w
@@ -8579,10 +8579,11 @@ possibly expanding a tuple in the process.
 @ The |transform| method of |component_transform| is similar to the |assign|
 methods above. However, instead of assigning the evaluation of |rhs| into the
 aggregate, it combines it with the previous value of the destination component
-using |f_ptr| (which is a |shared_builtin|). Since the first operand of |f_ptr|,
-which is the old value of the row component |ai|, is moved out of the row to the
-stack, we make sure to evaluate the second operand before it, so that during its
-evaluation the row |a| is still intact. This requires temporarily moving that
+using |f_ptr| (which is a |shared_builtin|). The first operand of |f_ptr| is the
+old value of the row component |ai|; it must not be moved out of the row, since
+the call of |f_ptr| may throw an error, after which the row |a| remains
+accessible. We evaluate the second operand before pushing the first one, since
+that evaluation might change the row |a|. This requires temporarily moving that
 second argument off the stack before moving it back on. (The expression for that
 operand is called |rhs|, in the |assignment| class we inherit from.) The code
 takes into account the possibility of an absent second argument, indicated by
@@ -8607,7 +8608,7 @@ void component_transform<reversed>::transform
   if (static_cast<size_t>(i) >= n)
     throw runtime_error(range_mess(i,a.size(),this,"component assignment"));
   auto& ai = a[reversed ? n-1-i : i];
-  push_value(std::move(ai)); // move-push component before transformation
+  push_value(ai); // push component before transformation, keeping a copy in |a|
   if (op2!=nullptr)
     push_value(std::move(op2)); // and possibly additional argument
   @< Call |*f_ptr| to produce a single value, taking measures for back tracing @>
@@ -8618,7 +8619,7 @@ void field_transform::transform (level lev,shared_value& tupple) const
 { auto op2 = (rhs==nullptr ? nullptr : (rhs->eval(),pop_value()));
    // put aside additional operand
   shared_value& field=uniquify<tuple_value>(tupple)->val[position];
-  push_value(std::move(field)); // move-push field before transformation
+  push_value(field); // push field before transformation, keeping a copy
   if (op2!=nullptr)
     push_value(std::move(op2)); // and possibly additional argument
   @< Call |*f_ptr| to produce a single value, taking measures for back tracing @>
-- 
2.43.0


From 4315de72c70e61d8b7613909504a625f3a6391bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:00 +0000
Subject: [PATCH 05/17] fix: TitsCoset::is_valid kept the identity of the first
 group it was called for

---
 sources/structure/tits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/structure/tits.cpp b/sources/structure/tits.cpp
index 4c228bc..04d642a 100644
--- a/sources/structure/tits.cpp
+++ b/sources/structure/tits.cpp
@@ -727,7 +727,7 @@ void TitsCoset::strict_based_twisted_conjugate(TitsElt& a, size_t s) const
 
 bool TitsCoset::is_valid(TitsElt a) const
 {
-  static TitsElt e(Tg);  // identity
+  const TitsElt e(Tg);  // identity
   Tg.mult(a,twisted(a));
   return a==e;
 }
-- 
2.43.0


From 93eb8f66afa4acf071d5b98013769aa30b2fc3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:08 +0000
Subject: [PATCH 06/17] fix: printRealForms writes to the stream it is given

---
 sources/io/output.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/io/output.cpp b/sources/io/output.cpp
index 919c00f..69285dd 100644
--- a/sources/io/output.cpp
+++ b/sources/io/output.cpp
@@ -186,7 +186,7 @@ FormNumberMap::FormNumberMap(const InnerClass& G,
 std::ostream& printRealForms(std::ostream& strm, const FormNumberMap& I)
 {
   for (size_t i = 0; i < I.numRealForms(); ++i)
-    std::cout << i << ": " << I.type_name(i) << std::endl;
+    strm << i << ": " << I.type_name(i) << std::endl;
 
   return strm;
 }
-- 
2.43.0


From 22cb016f481effd41c5759bbbc4f5ff3108755bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:56 +0000
Subject: [PATCH 07/17] fix: copying a Block also copies its ranges of x and y
 values

---
 sources/gkmod/blocks.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/gkmod/blocks.cpp b/sources/gkmod/blocks.cpp
index 669e8bc..43b9915 100644
--- a/sources/gkmod/blocks.cpp
+++ b/sources/gkmod/blocks.cpp
@@ -532,6 +532,7 @@ Bare_block Bare_block::dual(const Block_base& block)
 Block::Block(const Block& b) // obligatory but in practice unused construction
   : Block_base(b) // copy
   , tW(b.tW) // share
+  , xrange(b.xrange), yrange(b.yrange)
   , d_Cartan(b.d_Cartan)
   , d_involution(b.d_involution)
   , d_first_z_of_x(b.d_first_z_of_x)
-- 
2.43.0


From 6dbb6b82cff67822e0395d22334264d131f16201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 08/17] fix: big_int::operator^ returned a reference to a
 temporary

---
 sources/utilities/bigint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/utilities/bigint.h b/sources/utilities/bigint.h
index da6e608..cb98738 100644
--- a/sources/utilities/bigint.h
+++ b/sources/utilities/bigint.h
@@ -133,7 +133,7 @@ public:
     else
       return big_int(x) |= *this;
   }
-  big_int& operator^ (const big_int& x) const
+  big_int operator^ (const big_int& x) const
   { // copy the longer argument
     if (d.size()>=x.d.size())
       return big_int(*this) ^= x;
-- 
2.43.0


From 862c59fb8112fd89c0d3c8d7d3beacb0cc5ad541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 09/17] fix: a failed extended KL column is reported, not left
 silently empty

---
 sources/gkmod/ext_kl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/gkmod/ext_kl.cpp b/sources/gkmod/ext_kl.cpp
index 0f49b78..7f393f1 100644
--- a/sources/gkmod/ext_kl.cpp
+++ b/sources/gkmod/ext_kl.cpp
@@ -441,6 +441,7 @@ void KL_table::fill_columns(BlockElt limit)
       catch(...)
       {
 	column[y].clear(); // ensure partially filled columns are removed
+	throw; // but do not pretend that the column was filled
       }
     }
 
-- 
2.43.0


From f6e3b437033e935968c232512d2defa56d63c426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 10/17] fix: changing the real form builds the new objects
 before dropping the old ones

---
 sources/interface/realmode.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sources/interface/realmode.cpp b/sources/interface/realmode.cpp
index 4dc54db..23a4249 100644
--- a/sources/interface/realmode.cpp
+++ b/sources/interface/realmode.cpp
@@ -9,6 +9,7 @@
 
 #include "realmode.h"
 
+#include <memory> // for |std::unique_ptr|
 #include <cstdio>   // not obviously used, but appears helpful for Windows
 
 #include "innerclass.h"
@@ -171,11 +172,14 @@ void real_mode_entry()
 void realform_f()
 {
   try
-  { // we can call the swap method for rvalues, but not with and rvalue arg
+  { // build everything that may fail before changing anything
     RealFormNbr rf = interactive::get_real_form(currentComplexInterface());
-  RealReductiveGroup(current_inner_class(),rf).swap(currentRealGroup());
-    delete rt; rt = new Rep_table(currentRealGroup());
+    std::unique_ptr<RealReductiveGroup> new_G
+      (new RealReductiveGroup(current_inner_class(),rf));
+    std::unique_ptr<Rep_table> new_rt(new Rep_table(*new_G));
     drop_to(real_mode); // drop invalidated descendant modes if called from them
+    delete rt; rt = new_rt.release();
+    delete G_R_pointer; G_R_pointer = new_G.release();
   }
   catch (error::InputError& e)
   {
-- 
2.43.0


From 30bfb095da1406c0681756a71c5539b9534ee986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 11/17] fix: changing the parameter builds the new objects
 before dropping the old ones

---
 sources/interface/reprmode.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/sources/interface/reprmode.cpp b/sources/interface/reprmode.cpp
index ea08bef..dde6708 100644
--- a/sources/interface/reprmode.cpp
+++ b/sources/interface/reprmode.cpp
@@ -8,6 +8,7 @@
 */
 
 #include <iostream>
+#include <memory> // for |std::unique_ptr|
 #include <fstream>
 #include <iomanip>
 
@@ -226,25 +227,27 @@ void repr_f()
     RatWeight gamma(0);
     KGBElt x;
 
-    sub = new SubSystemWithGroup
-      (interactive::get_parameter(GR,x,lambda_rho,gamma));
+    std::unique_ptr<SubSystemWithGroup> new_sub(new SubSystemWithGroup
+      (interactive::get_parameter(GR,x,lambda_rho,gamma)));
 
     Permutation pi;
 
     std::cout << "Subsystem on dual side is ";
-    if (sub->rank()==0)
+    if (new_sub->rank()==0)
       std::cout << "empty.\n";
     else
     {
       std::cout << "of type "
-		<< dynkin::Lie_type(sub->Cartan_matrix().transposed(),pi)
+		<< dynkin::Lie_type(new_sub->Cartan_matrix().transposed(),pi)
 		<< ", with roots ";
-      for (weyl::Generator s=0; s<sub->rank(); ++s)
-	std::cout << sub->parent_nr_simple(pi[s])
-		  << (s<sub->rank()-1 ? "," : ".\n");
+      for (weyl::Generator s=0; s<new_sub->rank(); ++s)
+	std::cout << new_sub->parent_nr_simple(pi[s])
+		  << (s<new_sub->rank()-1 ? "," : ".\n");
     }
-    delete sr;
-    sr = new StandardRepr(currentRepContext().sr(x,lambda_rho,gamma));
+    std::unique_ptr<StandardRepr> new_sr
+      (new StandardRepr(currentRepContext().sr(x,lambda_rho,gamma)));
+    delete sub; sub = new_sub.release(); // nothing can fail from here on
+    delete sr; sr = new_sr.release();
     state = noblock;
     delete common_block_pointer; common_block_pointer=nullptr;
     delete WGr_pointer; WGr_pointer=nullptr;
-- 
2.43.0


From 92b6832477ff8d2ebd8665416728775f524053e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 12/17] fix: read_bytes relied on the order of evaluation of
 operands

---
 sources/io/basic_io_def.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/io/basic_io_def.h b/sources/io/basic_io_def.h
index e8ee168..8e0dfc7 100644
--- a/sources/io/basic_io_def.h
+++ b/sources/io/basic_io_def.h
@@ -50,7 +50,8 @@ template<typename I>
 template <unsigned int n>
 inline unsigned long long read_bytes(std::istream& in)
 {
-  return static_cast<unsigned char>(in.get())+(read_bytes<n-1>(in)<<8);
+  unsigned long long low = static_cast<unsigned char>(in.get()); // must be first
+  return low+(read_bytes<n-1>(in)<<8);
 }
 
 template<>
-- 
2.43.0


From cba3943486c6d4763cbf8b5ab1eda6c150057592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 13/17] fix: (co)dominance for a Weyl subgroup ignored the
 subgroup

---
 sources/structure/rootdata.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/structure/rootdata.h b/sources/structure/rootdata.h
index b358291..6f629bd 100644
--- a/sources/structure/rootdata.h
+++ b/sources/structure/rootdata.h
@@ -667,7 +667,7 @@ public:
     GenWord to_dominant(Gens g, matrix::Vector<C> lambda) const;
   template<typename C>
     matrix::Vector<C>& make_dominant(Gens g, matrix::Vector<C>& lambda) const
-      { factor_dominant(lambda); return lambda; }
+      { factor_dominant(g,lambda); return lambda; }
 
   // make |lambda| codominant, and return Weyl word that will convert it back
   template<typename C>
@@ -676,7 +676,7 @@ public:
     GenWord to_codominant (Gens g, matrix::Vector<C> lambda) const;
   template<typename C>
     matrix::Vector<C>& make_codominant(Gens g, matrix::Vector<C>& lambda) const
-      { factor_codominant(lambda); return lambda; }
+      { factor_codominant(g,lambda); return lambda; }
 
   template<typename C>
     void act(const WeylWord& ww, matrix::Vector<C>& lambda) const
-- 
2.43.0


From c754cb2fc9eceb2bbabfa0c92c4ec319c6d80e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 14/17] fix: Cartan_orbits::total_size ignored the set of
 Cartan classes

---
 sources/structure/involutions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/structure/involutions.cpp b/sources/structure/involutions.cpp
index 13dc702..7c52aee 100644
--- a/sources/structure/involutions.cpp
+++ b/sources/structure/involutions.cpp
@@ -437,8 +437,8 @@ void InvolutionTable::reduce(TitsElt& a) const
 size_t Cartan_orbits::total_size(const BitMap& Cartan_classes) const
 {
   size_t s=0;
-  for (CartanNbr cn=0; cn<orbit.size(); ++cn)
-    s+=operator[](cn).size;
+  for (auto it=Cartan_classes.begin(); it(); ++it)
+    s+=operator[](*it).size;
   return s;
 }
 
-- 
2.43.0


From 7449782806efbeaafdfe753b55c4e3537da4ebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:53 +0000
Subject: [PATCH 15/17] fix: the in-place TitsGroup::twist changed only its own
 copy

---
 sources/structure/tits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/structure/tits.h b/sources/structure/tits.h
index dd02da6..3568a97 100644
--- a/sources/structure/tits.h
+++ b/sources/structure/tits.h
@@ -537,7 +537,7 @@ class TitsGroup : public TwistedWeylGroup
   TorusPart dual_twisted(const TorusPart x) const { return dual_involution*x; }
 
   // In-place imperative version of |twisted(TorusPart x)|
-  void twist(TorusPart x) const { x=twisted(x); }
+  void twist(TorusPart& x) const { x=twisted(x); }
 
   // Reflection of |TorusPart|s defined by a twisted involution
   BinaryMap involutionMatrix(const WeylWord& tw) const;
-- 
2.43.0


From 3429667bc8b79109b5a2648d2042ba4a59c2e7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 16/17] fix: product of rational numbers divided negative
 numerators as unsigned numbers

---
 sources/utilities/arithmetic.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/utilities/arithmetic.cpp b/sources/utilities/arithmetic.cpp
index e69ac9a..d207a40 100644
--- a/sources/utilities/arithmetic.cpp
+++ b/sources/utilities/arithmetic.cpp
@@ -175,8 +175,9 @@ template<typename I>
 {
   normalize(); q.normalize();
   Denom_t d = gcd(num,q.denom);
-  I new_num = d==1 ? num : (q.denom/=d, num/d);
-  auto new_denom = (d = gcd(q.num,denom))==1 ? denom : (q.num/=d, denom/d);
+  I new_num = d==1 ? num : (q.denom/=d, num/static_cast<I>(d));
+  auto new_denom = (d = gcd(q.num,denom))==1
+    ? denom : (q.num/=static_cast<I>(d), denom/d);
   return Rational<I>(new_num*q.num,new_denom*q.denom);
 }
 
-- 
2.43.0


From 01edddd97621ac38deda7492e3bf43cd1b34ce32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 17/17] fix: sl_list move-assigned to itself kept its nodes but
 became of size 0

---
 sources/utilities/sl_list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/utilities/sl_list.h b/sources/utilities/sl_list.h
index 807a318..e2ef0b8 100644
--- a/sources/utilities/sl_list.h
+++ b/sources/utilities/sl_list.h
@@ -1276,7 +1276,7 @@ template<typename T, typename Alloc>
     { // do move assignment on list first, using our allocator for destructions
       if (x.head.get()==nullptr)
 	clear(); // this sets |tail| correctly, rather than to |x.tail|
-      else
+      else if (this!=&x) // self-assignment must not call |x.set_empty|
       { // now we can just move all fields
 	head = std::move(x.head); // |std::unique_ptr| move assignment
 	tail = x.tail; // copy raw pointer
-- 
2.43.0

