From ebdf97cb2203e5379be938f7ce23585ce93347ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 01/22] fix: Owned::leak must not run the destructor of the
 leaked object

---
 varlen/src/owned.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/varlen/src/owned.rs b/varlen/src/owned.rs
index 77576f3..a2ddef5 100644
--- a/varlen/src/owned.rs
+++ b/varlen/src/owned.rs
@@ -162,7 +162,8 @@ impl<'storage, T: VarLen> Owned<'storage, T> {
     /// # }
     /// ```
     pub fn leak(self) -> Pin<&'storage mut T> {
-        let Owned(mut ptr, _) = self;
+        let mut ptr = self.0;
+        core::mem::forget(self);
         unsafe { Pin::new_unchecked(ptr.as_mut()) }
     }
 
-- 
2.43.0


From 472d9a2b94a335e6674152e211317feea93e534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 02/22] fix: Seq::take_elems must clear the validity bits of
 the taken elements

---
 varlen/src/seq.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index 17aa13c..ee2c3a8 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -907,11 +907,11 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
             len_elements: self.len_elements,
             marker: core::marker::PhantomData,
         };
-        self.len_elements = 0;
-        self.occupied_offsets = 0;
         unsafe {
             Idx::clear_bitmasks(self.ptr, self.capacity_offsets, self.occupied_offsets);
         }
+        self.len_elements = 0;
+        self.occupied_offsets = 0;
         r
     }
 
-- 
2.43.0


From 2c48bf236f724a7d17a072cb3a798b8a04153e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 03/22] fix: mark a Seq offset valid only once its element is
 initialized

---
 varlen/src/seq.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index ee2c3a8..ce845fd 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -687,8 +687,9 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
         }
         let elem_offset = self.occupied_offsets;
         unsafe {
-            Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);
             init.initialize(add_offsets_fast(self.ptr, elem_offset), layout);
+            // Only after initialization, which may panic.
+            Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);
         }
         self.occupied_offsets = occupied_plus;
         self.len_elements += 1;
-- 
2.43.0


From 350f34e3f1a30cf597ebf35a693b46002d5e69d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 04/22] fix: zero-sized elements of a Seq need their own offset
 and aligned storage

---
 varlen/src/seq.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index ce845fd..e62ddf5 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -486,6 +486,14 @@ fn round_up_fast(size: usize, align: usize) -> usize {
     size.wrapping_add(align - 1) & 0usize.wrapping_sub(align)
 }
 
+/// Distance in bytes between the start of an element of `size` bytes and the start of the
+/// next element. Zero-sized elements take up space too, so that every element has its own
+/// offset and a nonempty sequence has (suitably aligned) storage.
+#[inline(always)]
+fn elem_stride<T: VarLen>(size: usize) -> usize {
+    round_up_fast(core::cmp::max(size, 1), T::ALIGN)
+}
+
 #[inline]
 fn try_realloc<Idx: Indexing>(
     ptr: NonNull<u8>,
@@ -670,7 +678,9 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
     fn try_push(&mut self, init: impl Initializer<T>) -> Result<(), OverflowError> {
         let layout = init.calculate_layout_cautious().ok_or(OverflowError)?;
         let align = T::ALIGN;
-        let size_offsets = layout.size().checked_add(align - 1).ok_or(OverflowError)? / align;
+        // Every element occupies at least one offset; see `elem_stride()`.
+        let size = core::cmp::max(layout.size(), 1);
+        let size_offsets = size.checked_add(align - 1).ok_or(OverflowError)? / align;
         let occupied_plus = self
             .occupied_offsets
             .checked_add(size_offsets)
@@ -1133,7 +1143,7 @@ impl<'a, T: VarLen> Iterator for Iter<'a, T> {
         if self.len_elements > 0 {
             let t = unsafe { self.ptr.as_ref() };
             let size = t.calculate_layout().size();
-            self.ptr = unsafe { add_bytes_fast(self.ptr, round_up_fast(size, T::ALIGN)) };
+            self.ptr = unsafe { add_bytes_fast(self.ptr, elem_stride::<T>(size)) };
             self.len_elements -= 1;
             Some(t)
         } else {
@@ -1219,7 +1229,7 @@ impl<'a, T: VarLen> Iterator for IterMut<'a, T> {
         if self.len_elements > 0 {
             let t = unsafe { Pin::new_unchecked(self.ptr.as_mut()) };
             let size = t.calculate_layout().size();
-            self.ptr = unsafe { add_bytes_fast(self.ptr, round_up_fast(size, T::ALIGN)) };
+            self.ptr = unsafe { add_bytes_fast(self.ptr, elem_stride::<T>(size)) };
             self.len_elements -= 1;
             Some(t)
         } else {
@@ -1304,7 +1314,7 @@ impl<'a, T: VarLen> Iterator for OwnedElems<'a, T> {
         if self.len_elements > 0 {
             let t = unsafe { Owned::from_raw(self.ptr) };
             let size = T::calculate_layout(&*t).size();
-            self.ptr = unsafe { add_bytes_fast(self.ptr, round_up_fast(size, T::ALIGN)) };
+            self.ptr = unsafe { add_bytes_fast(self.ptr, elem_stride::<T>(size)) };
             self.len_elements -= 1;
             Some(t)
         } else {
-- 
2.43.0


From f954e818bc28f5a32eaa778bbb6f7810ea87607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 05/22] fix: VBox::new must not write through a null pointer
 when allocation fails

---
 varlen/src/vbox.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/varlen/src/vbox.rs b/varlen/src/vbox.rs
index e717e1c..0df1f22 100644
--- a/varlen/src/vbox.rs
+++ b/varlen/src/vbox.rs
@@ -59,9 +59,9 @@ impl<T: VarLen> VBox<T> {
             .unwrap_or_else(|_| allocation_overflow());
         unsafe {
             let p = alloc::alloc(alloc_layout) as *mut T;
+            let mut p = NonNull::new(p).unwrap_or_else(|| alloc::handle_alloc_error(alloc_layout));
             let layout_size = layout.size();
-            init.initialize(NonNull::new_unchecked(p), layout);
-            let mut p = NonNull::new_unchecked(p);
+            init.initialize(p, layout);
             // TODO(reinerp): Compare directly on Layout type? Or too much generated code?
             debug_assert_eq!(p.as_mut().calculate_layout().size(), layout_size);
             VBox(p)
-- 
2.43.0


From 77172205f5d9d2b1df831e7ecfad89b9dd0a06a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 06/22] fix: VBox must not request or free zero-sized heap
 blocks

---
 varlen/src/vbox.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/varlen/src/vbox.rs b/varlen/src/vbox.rs
index 0df1f22..40c665f 100644
--- a/varlen/src/vbox.rs
+++ b/varlen/src/vbox.rs
@@ -40,6 +40,14 @@ fn allocation_overflow() -> ! {
     panic!("Allocation size overflow")
 }
 
+/// Frees the storage of a `VBox`. Zero-sized objects have none.
+#[inline]
+unsafe fn dealloc_nonzero(ptr: *mut u8, layout: alloc::Layout) {
+    if layout.size() != 0 {
+        alloc::dealloc(ptr, layout);
+    }
+}
+
 #[allow(rustdoc::missing_doc_code_examples)]
 impl<T: VarLen> VBox<T> {
     /// Allocates memory which is right-sized for this particular instance.
@@ -58,7 +66,12 @@ impl<T: VarLen> VBox<T> {
         let alloc_layout = alloc::Layout::from_size_align(layout.size(), T::ALIGN)
             .unwrap_or_else(|_| allocation_overflow());
         unsafe {
-            let p = alloc::alloc(alloc_layout) as *mut T;
+            let p = if alloc_layout.size() == 0 {
+                // The allocator must not be asked for zero bytes.
+                T::ALIGN as *mut T
+            } else {
+                alloc::alloc(alloc_layout) as *mut T
+            };
             let mut p = NonNull::new(p).unwrap_or_else(|| alloc::handle_alloc_error(alloc_layout));
             let layout_size = layout.size();
             init.initialize(p, layout);
@@ -150,7 +163,7 @@ impl<T: VarLen> Drop for VBox<T> {
             let layout = T::calculate_layout(&*self);
             let alloc_layout = alloc::Layout::from_size_align_unchecked(layout.size(), T::ALIGN);
             T::vdrop(self.as_mut(), layout);
-            alloc::dealloc(self.0.as_ptr() as *mut u8, alloc_layout);
+            dealloc_nonzero(self.0.as_ptr() as *mut u8, alloc_layout);
         }
     }
 }
@@ -188,7 +201,7 @@ unsafe impl<T: VarLen> Initializer<T> for VBox<T> {
         //  * dst is unique
         //  * dst size is guaranteed by the SizedInitializer call
         core::ptr::copy_nonoverlapping(ptr, dst.as_ptr().cast::<u8>(), size);
-        alloc::dealloc(ptr, layout);
+        dealloc_nonzero(ptr, layout);
         core::mem::forget(self);
     }
 
-- 
2.43.0


From 7ad0282c3f6d71a9738165acc7da49e33ea9a5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 07/22] fix: a panicking destructor in
 try_set_layout_controllers must not leave mixed lengths

---
 varlen_macro/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 2c7b9e5..d33a174 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -473,9 +473,14 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                     )*;
                 if valid {
                     let self_mut = unsafe { self.get_unchecked_mut() };
-                    #(
-                        self_mut.#lengths_ident = layout_controllers.#lengths_ident;
-                    )*
+                    // Destroy the old values only once all new values are in place: a destructor
+                    // that panics must not leave a mixture, whose lengths may be different.
+                    let _old = (
+                        #(
+                            ::core::mem::replace(
+                                &mut self_mut.#lengths_ident, layout_controllers.#lengths_ident),
+                        )*
+                    );
                     ::core::result::Result::Ok(())
                 } else {
                     ::core::result::Result::Err(::varlen::macro_support::LayoutMismatch)
-- 
2.43.0


From 83123f36c09e28461156befe8d501efe5fc11f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 08/22] fix: moving out of Owned must copy the object's bytes,
 not that many heads

---
 varlen/src/owned.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/varlen/src/owned.rs b/varlen/src/owned.rs
index a2ddef5..3ba8a84 100644
--- a/varlen/src/owned.rs
+++ b/varlen/src/owned.rs
@@ -218,7 +218,11 @@ unsafe impl<T: VarLen> Initializer<T> for Owned<'_, T> {
         //  * Owned has unique access to its pointer
         //  * dst is unique
         //  * dst size is guaranteed by the SizedInitializer call
-        core::ptr::copy_nonoverlapping(self.0.as_ptr(), dst.as_ptr(), layout.size());
+        core::ptr::copy_nonoverlapping(
+            self.0.as_ptr().cast::<u8>(),
+            dst.as_ptr().cast::<u8>(),
+            layout.size(),
+        );
         core::mem::forget(self);
     }
 
-- 
2.43.0


From 0cb478aa0b824a00eb75e2038ac6b111a4eec33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:34 +0000
Subject: [PATCH 09/22] fix: safe code must not be able to declare generated
 variable-length types Unpin

A user-written 'impl Unpin' for a #[define_varlen] struct or a varlen newtype gave safe
&mut access to the head of an object, so that mem::swap could separate heads from tails.
---
 varlen/src/macro_support.rs |  3 +++
 varlen/src/newtype.rs       |  7 +++++++
 varlen_macro/src/lib.rs     | 10 ++++++++++
 3 files changed, 20 insertions(+)

diff --git a/varlen/src/macro_support.rs b/varlen/src/macro_support.rs
index ab7cafa..6d307da 100644
--- a/varlen/src/macro_support.rs
+++ b/varlen/src/macro_support.rs
@@ -181,6 +181,9 @@ pub fn invalid_drop_call() -> ! {
     panic!("Called drop on a VarLen type; should have used vdrop instead")
 }
 
+/// `Unpin` exactly if `T` is. The lifetime lets `where` clauses state this for concrete types.
+pub struct UnpinIf<'a, T>(core::marker::PhantomData<&'a ()>, core::marker::PhantomData<T>);
+
 /// Error representing that a variable-length type was modified in a way which caused its
 /// layout to change.
 #[derive(Clone, Copy, Debug)]
diff --git a/varlen/src/newtype.rs b/varlen/src/newtype.rs
index f380b2f..9cbe1e1 100644
--- a/varlen/src/newtype.rs
+++ b/varlen/src/newtype.rs
@@ -219,6 +219,13 @@ macro_rules! define_varlen_newtype {
             }
         }
 
+        // Written out so that the user cannot write `impl Unpin`, which would be unsound unless
+        // the inner type is `Unpin`.
+        impl<'__varlen, $( $($($generic_params)*,)* )*> ::core::marker::Unpin for $outer $(< $($($generics_apply)*),* >)*
+        where
+            $crate::macro_support::UnpinIf<'__varlen, $inner>: ::core::marker::Unpin,
+        {}
+
         #[allow(rustdoc::missing_doc_code_examples)]
         impl $(< $($($generic_params)*),* >)* $outer $(< $($($generics_apply)*),* >)* {
             $(#[$refattrs])*
diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index d33a174..433e056 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -251,6 +251,8 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
     let (layout_generics_structdef, layout_generics_impl, layout_generics_apply, layout_generics_where) 
         = parse_generics(&d.generics, Some(varlen_layout_ty_refs));
 
+    let where_predicates = d.generics.where_clause.iter().flat_map(|w| w.predicates.iter());
+
     // TODO(reinerp): This is potentially quadratic syntax size. Create type synonym instead,
     // to keep it linear.
     let len_fn_arg = quote! {
@@ -341,6 +343,14 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
             }
         }
 
+        // Written out so that the user cannot write `impl Unpin` and thereby obtain `&mut` access
+        // to a struct which is followed by a variable-length tail.
+        impl<'__varlen, #(#generics_impl),*> ::core::marker::Unpin for #tyname<#(#generics_apply),*>
+        where
+            #( #where_predicates, )*
+            ::varlen::macro_support::UnpinIf<'__varlen, ( #( #all_decl_ty, )* )>: ::core::marker::Unpin,
+        {}
+
         unsafe impl<#(#generics_impl),*> ::varlen::VarLen for #tyname<#(#generics_apply),*> #generics_where {
             type Layout = #mod_name::VarLenLayout<#(#layout_generics_apply),*>;
 
-- 
2.43.0


From 49c1217f437cd29bc346560b054bf070372f7a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:50 +0000
Subject: [PATCH 10/22] fix: reject layout-controlling fields with interior
 mutability

With #[controls_layout] n: Cell<usize> and a length of n.get() (a const fn), safe code could
change an array's length through a shared reference and read out of bounds.
---
 varlen/src/macro_support.rs | 4 ++++
 varlen_macro/src/lib.rs     | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/varlen/src/macro_support.rs b/varlen/src/macro_support.rs
index 6d307da..fee13e6 100644
--- a/varlen/src/macro_support.rs
+++ b/varlen/src/macro_support.rs
@@ -181,6 +181,10 @@ pub fn invalid_drop_call() -> ! {
     panic!("Called drop on a VarLen type; should have used vdrop instead")
 }
 
+/// Rejects types like `Cell` at compile time. `Sync` types are accepted: those which have interior
+/// mutability cannot be read by the `const fn`s that compute array lengths.
+pub const fn assert_no_interior_mutability<T: Sync>() {}
+
 /// `Unpin` exactly if `T` is. The lifetime lets `where` clauses state this for concrete types.
 pub struct UnpinIf<'a, T>(core::marker::PhantomData<&'a ()>, core::marker::PhantomData<T>);
 
diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 433e056..a1e9071 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -299,6 +299,11 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                 )*
             }
 
+            // Lengths are computed anew on every access, so they must not change through `&self`.
+            #(
+                const _: () = ::varlen::macro_support::assert_no_interior_mutability::<#lengths_ty>();
+            )*
+
             #tyvis_inner struct Init< #(#varlen_init_ty_param,)* > {
                 #(
                     #all_attr
-- 
2.43.0


From 0121334b7b1ef1fb96d97adf46a875ffcf18799e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 11/22] fix: generated names must not collide with user field
 names

Fields named 'size' or 'lengths', and pairs like 'x' with 'x_len' or 'x_layout', did not compile.
---
 varlen_macro/src/lib.rs | 45 +++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index a1e9071..37eed85 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -273,7 +273,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
 
             /// Array offsets and lengths for all trailing arrays and nested types.
             #tyvis_inner struct VarLenLayout<#(#layout_generics_structdef),*> #layout_generics_where {
-                pub(super) size: usize,
+                pub(super) __varlen_size: usize,
                 #(
                     pub(super) #varlen_ident: usize,
                     pub(super) #varlen_layout_ident: #varlen_layout_ty,
@@ -283,7 +283,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
             impl<#(#layout_generics_impl),*> ::varlen::Layout for VarLenLayout<#(#layout_generics_apply),*> #layout_generics_where {
                 #[inline(always)]
                 fn size(&self) -> usize {
-                    self.size
+                    self.__varlen_size
                 }
             }
 
@@ -361,21 +361,21 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
 
             #[inline(always)]
             fn calculate_layout(&self) -> #mod_name::VarLenLayout<#(#layout_generics_apply),*> {
-                let lengths = (
+                let __varlen_lengths = (
                     #(
                         &self.#lengths_ident,
                     )*
                 );
-                let size = ::core::mem::size_of::<Self>();
+                let __varlen_size = ::core::mem::size_of::<Self>();
                 #(
-                    let ((#varlen_ident, #varlen_layout_ident, size)) = #varlen_cat_field_fast;
+                    let ((#varlen_ident, #varlen_layout_ident, __varlen_size)) = #varlen_cat_field_fast;
                 )*
                 #mod_name::VarLenLayout{
                     #(
                         #varlen_ident,
                         #varlen_layout_ident,
                     )*
-                    size,
+                    __varlen_size,
                 }
             }
 
@@ -409,21 +409,21 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                 #generics_where {
             #[inline(always)]
             fn calculate_layout_cautious(&self) -> ::core::option::Option<#mod_name::VarLenLayout<#(#layout_generics_apply),*>> {
-                let lengths = (
+                let __varlen_lengths = (
                     #(
                         &self.#lengths_ident,
                     )*
                 );
-                let size = ::core::mem::size_of::<#tyname>();
+                let __varlen_size = ::core::mem::size_of::<#tyname>();
                 #(
-                    let (#varlen_ident, #varlen_layout_ident, size) = #varlen_cat_field_cautious?;
+                    let (#varlen_ident, #varlen_layout_ident, __varlen_size) = #varlen_cat_field_cautious?;
                 )*
                 ::core::option::Option::Some(#mod_name::VarLenLayout{
                     #(
                         #varlen_ident,
                         #varlen_layout_ident,
                     )*
-                    size,
+                    __varlen_size,
                 })
             }
 
@@ -580,7 +580,7 @@ impl SimpleVisibility {
 }
 
 fn mk_layout_ident(ident: &Ident) -> Ident {
-    format_ident!("{}_layout", ident)
+    format_ident!("__varlen_layout_{}", ident)
 }
 
 fn mk_init_ident(ident: &Ident) -> Ident {
@@ -713,9 +713,9 @@ struct FieldMarkers {
     layout_ty: Vec<TokenStream>,
     /// Generic types referenced by layout_ty
     layout_ty_refs: GenericRefs,
-    /// calls 'cat_field_cautious' with 'size: usize', returning 'Option<(usize, usize, field::Layout)>'
+    /// calls 'cat_field_cautious' with '__varlen_size: usize', returning 'Option<(usize, usize, field::Layout)>'
     cat_field_cautious: Vec<TokenStream>,
-    /// calls 'cat_field_fast' with 'size: usize', returning 'Option<(usize, usize, field::Layout)>'
+    /// calls 'cat_field_fast' with '__varlen_size: usize', returning 'Option<(usize, usize, field::Layout)>'
     cat_field_fast: Vec<TokenStream>,
     /// Gets the required alignment of this field
     align_of_field: Vec<TokenStream>,
@@ -899,12 +899,12 @@ impl FieldGroups {
         self.varlen_fields
             .cat_field_cautious
             .push(quote_spanned! { span =>
-                ::varlen::macro_support::cat_field_cautious::<#ty, _>(&self.#ident, size)
+                ::varlen::macro_support::cat_field_cautious::<#ty, _>(&self.#ident, __varlen_size)
             });
         self.varlen_fields
             .cat_field_fast
             .push(quote_spanned! { span =>
-                ::varlen::macro_support::cat_field_fast::<#ty, _>(self, size)
+                ::varlen::macro_support::cat_field_fast::<#ty, _>(self, __varlen_size)
             });
         self.varlen_fields
             .align_of_field
@@ -947,6 +947,7 @@ impl FieldGroups {
         let meta = OneMeta::parse(&f)?;
         let ident = f.ident.unwrap();
         let len_ident = format_ident!("{}_len", &ident);
+        let layout_ident = mk_layout_ident(&ident);
         let init_ident = mk_init_ident(&ident);
         let span = f.ty.span();
         let ty = f.ty;
@@ -975,7 +976,7 @@ impl FieldGroups {
         self.varlen_fields
             .init_ty_constraints
             .push(quote_spanned! { span => ::varlen::array_init::ArrayInitializer<#elem_ty> });
-        self.varlen_fields.layout_idents.push(len_ident.clone());
+        self.varlen_fields.layout_idents.push(layout_ident.clone());
         self.varlen_fields
             .layout_ty
             .push(quote_spanned! { span => usize });
@@ -983,13 +984,13 @@ impl FieldGroups {
             .cat_field_cautious
             .push(quote_spanned! { span =>
                 ::varlen::macro_support::cat_array_field_cautious::<#elem_ty>(
-                    #mod_name::lengths::#len_ident(lengths), size)
+                    #mod_name::lengths::#len_ident(__varlen_lengths), __varlen_size)
             });
         self.varlen_fields
             .cat_field_fast
             .push(quote_spanned! { span =>
                 ::varlen::macro_support::cat_array_field_fast::<#elem_ty>(
-                    #mod_name::lengths::#len_ident(lengths), size)
+                    #mod_name::lengths::#len_ident(__varlen_lengths), __varlen_size)
             });
         self.varlen_fields
             .align_of_field
@@ -1011,16 +1012,16 @@ impl FieldGroups {
             .mut_ty
             .push(quote_spanned! { span => &'a mut [#elem_ty] });
         self.all_fields.init_field.push(quote_spanned! { span =>
-            ::varlen::macro_support::init_array(self.#ident, p, layout.#ident, layout.#len_ident)
+            ::varlen::macro_support::init_array(self.#ident, p, layout.#ident, layout.#layout_ident)
         });
         self.all_fields.ref_field.push(quote_spanned! { span =>
-            ::varlen::macro_support::ref_array(self, layout.#ident, layout.#len_ident)
+            ::varlen::macro_support::ref_array(self, layout.#ident, layout.#layout_ident)
         });
         self.all_fields.mut_field.push(quote_spanned! { span =>
-            ::varlen::macro_support::mut_array(mut_ptr, layout.#ident, layout.#len_ident)
+            ::varlen::macro_support::mut_array(mut_ptr, layout.#ident, layout.#layout_ident)
         });
         self.all_fields.drop_field.push(quote_spanned! { span =>
-            ::varlen::macro_support::drop_array::<#elem_ty>(p, layout.#ident, layout.#len_ident);
+            ::varlen::macro_support::drop_array::<#elem_ty>(p, layout.#ident, layout.#layout_ident);
         });
         self.all_fields.needs_vdrop.push(quote_spanned! { span =>
             ::core::mem::needs_drop::<#elem_ty>()
-- 
2.43.0


From 99979acc7fc178f58aba5cf526c7fe8245ca7605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 12/22] fix: generated type parameters must not collide or
 panic on raw field names

Fields whose names differ only in case or underscores (a1 and a_1) and raw identifiers on
variable-length fields did not compile.
---
 varlen_macro/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 37eed85..5d580fc 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -7,6 +7,7 @@ use std::collections::HashSet;
 use convert_case::{Case, Casing};
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned};
+use syn::ext::IdentExt;
 use syn::{parse_quote, Generics, GenericParam, Lifetime};
 use syn::punctuated::Punctuated;
 use syn::spanned::Spanned;
@@ -583,8 +584,9 @@ fn mk_layout_ident(ident: &Ident) -> Ident {
     format_ident!("__varlen_layout_{}", ident)
 }
 
-fn mk_init_ident(ident: &Ident) -> Ident {
-    format_ident!("Init{}", ident.to_string().to_case(Case::UpperCamel))
+fn mk_init_ident(index: usize, ident: &Ident) -> Ident {
+    // The index distinguishes fields whose names differ only in case or underscores.
+    format_ident!("Init{}{}", index, ident.unraw().to_string().to_case(Case::UpperCamel))
 }
 
 #[derive(Clone)]
@@ -882,7 +884,7 @@ impl FieldGroups {
         let meta = OneMeta::parse(&f)?;
         let ident = f.ident.unwrap();
         let layout_ident = mk_layout_ident(&ident);
-        let init_ident = mk_init_ident(&ident);
+        let init_ident = mk_init_ident(self.varlen_fields.init_ty_params.len(), &ident);
         let span = f.ty.span();
         let ty = f.ty;
 
@@ -948,7 +950,7 @@ impl FieldGroups {
         let ident = f.ident.unwrap();
         let len_ident = format_ident!("{}_len", &ident);
         let layout_ident = mk_layout_ident(&ident);
-        let init_ident = mk_init_ident(&ident);
+        let init_ident = mk_init_ident(self.varlen_fields.init_ty_params.len(), &ident);
         let span = f.ty.span();
         let ty = f.ty;
 
-- 
2.43.0


From bbb6c22a1133e3b5603e5f74e07e70574cd565bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:31 +0000
Subject: [PATCH 13/22] fix: structs whose snake-case name is a keyword need a
 raw module name

---
 varlen_macro/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 5d580fc..3cfde8e 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -191,7 +191,10 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
     let (tyvis, tyvis_inner) = SimpleVisibility::try_parse(&d.vis)?;
     let tyname = d.ident;
 
-    let mut mod_name = format_ident!("{}", tyname.to_string().to_case(Case::Snake));
+    let mod_name = tyname.to_string().to_case(Case::Snake);
+    // The struct may be called `Type` or `Match`: then the module needs a raw name.
+    let mut mod_name = syn::parse_str(&mod_name)
+        .unwrap_or_else(|_| Ident::new_raw(&mod_name, proc_macro2::Span::call_site()));
     mod_name.set_span(proc_macro2::Span::call_site());
 
     let FieldGroups {
-- 
2.43.0


From 0cef1cd97f127662313732a7701074677a0f7667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:26 +0000
Subject: [PATCH 14/22] fix: accept structs without fields in define_varlen

---
 varlen_macro/src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 3cfde8e..1abc661 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -255,6 +255,16 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
     let (layout_generics_structdef, layout_generics_impl, layout_generics_apply, layout_generics_where) 
         = parse_generics(&d.generics, Some(varlen_layout_ty_refs));
 
+    // Without any field, `Refs` and `Muts` would not mention their lifetime.
+    let (marker_decl, marker_init) = if all_ident.is_empty() {
+        (
+            Some(quote!(pub(super) __varlen: ::core::marker::PhantomData<&'a ()>,)),
+            Some(quote!(__varlen: ::core::marker::PhantomData,)),
+        )
+    } else {
+        (None, None)
+    };
+
     let where_predicates = d.generics.where_clause.iter().flat_map(|w| w.predicates.iter());
 
     // TODO(reinerp): This is potentially quadratic syntax size. Create type synonym instead,
@@ -320,6 +330,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                     #all_attr
                     #all_vis_inner #all_ident: #all_mut_ty,
                 )*
+                #marker_decl
             }
 
             #tyvis_inner struct Refs<'a #(, #generics_structdef)*> {
@@ -327,6 +338,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                     #all_attr
                     #all_vis_inner #all_ident: #all_ref_ty,
                 )*
+                #marker_decl
             }
 
             #tyvis_inner struct LayoutControllers {
@@ -454,6 +466,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                         #(
                             #all_ident: #all_mut_field,
                         )*
+                        #marker_init
                     }
                 }
             }
@@ -466,6 +479,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                         #(
                             #all_ident: #all_ref_field,
                         )*
+                        #marker_init
                     }
                 }
             }
-- 
2.43.0


From 99ecc372bdec47fe1a3d48d74f984b6735836ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:04 +0000
Subject: [PATCH 15/22] fix: accept generic structs without default type
 arguments

---
 varlen_macro/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 1abc661..8bd075c 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -430,7 +430,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                         &self.#lengths_ident,
                     )*
                 );
-                let __varlen_size = ::core::mem::size_of::<#tyname>();
+                let __varlen_size = ::core::mem::size_of::<#tyname<#(#generics_apply),*>>();
                 #(
                     let (#varlen_ident, #varlen_layout_ident, __varlen_size) = #varlen_cat_field_cautious?;
                 )*
-- 
2.43.0


From 7777f58a7c4469037481ca76f698b4a6cb518c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:55 +0000
Subject: [PATCH 16/22] fix: field views must have the declared types, even if
 names resolve differently in the generated module

---
 varlen_macro/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 8bd075c..2f302cf 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -948,10 +948,10 @@ impl FieldGroups {
             ::varlen::macro_support::init_field(self.#ident, p, layout.#ident, layout.#layout_ident)
         });
         self.all_fields.ref_field.push(quote_spanned! { span =>
-            ::varlen::macro_support::ref_field(self, layout.#ident)
+            ::varlen::macro_support::ref_field::<_, #ty>(self, layout.#ident)
         });
         self.all_fields.mut_field.push(quote_spanned! { span =>
-            ::varlen::macro_support::mut_field(mut_ptr, layout.#ident)
+            ::varlen::macro_support::mut_field::<_, #ty>(mut_ptr, layout.#ident)
         });
         self.all_fields.drop_field.push(quote_spanned! { span =>
             ::varlen::macro_support::vdrop_field::<#ty>(p, layout.#ident, layout.#layout_ident);
@@ -1034,10 +1034,10 @@ impl FieldGroups {
             ::varlen::macro_support::init_array(self.#ident, p, layout.#ident, layout.#layout_ident)
         });
         self.all_fields.ref_field.push(quote_spanned! { span =>
-            ::varlen::macro_support::ref_array(self, layout.#ident, layout.#layout_ident)
+            ::varlen::macro_support::ref_array::<_, #elem_ty>(self, layout.#ident, layout.#layout_ident)
         });
         self.all_fields.mut_field.push(quote_spanned! { span =>
-            ::varlen::macro_support::mut_array(mut_ptr, layout.#ident, layout.#layout_ident)
+            ::varlen::macro_support::mut_array::<_, #elem_ty>(mut_ptr, layout.#ident, layout.#layout_ident)
         });
         self.all_fields.drop_field.push(quote_spanned! { span =>
             ::varlen::macro_support::drop_array::<#elem_ty>(p, layout.#ident, layout.#layout_ident);
-- 
2.43.0


From ae3f09e175f3ce04a589966a5cbf42737d60003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:38 +0000
Subject: [PATCH 17/22] fix: relative paths in field types and lengths of
 define_varlen structs

---
 varlen_macro/src/lib.rs | 79 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 67 insertions(+), 12 deletions(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 2f302cf..380f9cc 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -5,7 +5,7 @@
 use std::collections::HashSet;
 
 use convert_case::{Case, Casing};
-use proc_macro2::TokenStream;
+use proc_macro2::{TokenStream, TokenTree};
 use quote::{format_ident, quote, quote_spanned};
 use syn::ext::IdentExt;
 use syn::{parse_quote, Generics, GenericParam, Lifetime};
@@ -265,6 +265,22 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
         (None, None)
     };
 
+    // As spelled in the generated modules: relative paths are relative to those.
+    fn inner<T: quote::ToTokens>(tokens: &[T], depth: usize) -> Vec<TokenStream> {
+        tokens.iter().map(|t| spell_in_child_module(quote!(#t), depth)).collect()
+    }
+    let len_expr = inner(&len_expr, 2);
+    let len_fn_ty = inner(&lengths_ty, 2);
+    let inner_lengths_ty = inner(&lengths_ty, 1);
+    let inner_init_ty = inner(&all_init_ty, 1);
+    let inner_ref_ty = inner(&all_ref_ty, 1);
+    let inner_mut_ty = inner(&all_mut_ty, 1);
+    let inner_layout_ty = inner(&varlen_layout_ty, 1);
+    let inner_generics_structdef = inner(&generics_structdef, 1);
+    let inner_layout_generics_structdef = inner(&layout_generics_structdef, 1);
+    let inner_layout_generics_impl = inner(&layout_generics_impl, 1);
+    let inner_layout_generics_where = spell_in_child_module(layout_generics_where, 1);
+
     let where_predicates = d.generics.where_clause.iter().flat_map(|w| w.predicates.iter());
 
     // TODO(reinerp): This is potentially quadratic syntax size. Create type synonym instead,
@@ -276,7 +292,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
             )*
         ): (
             #(
-                & #lengths_ty,
+                & #len_fn_ty,
             )*
         )
     };
@@ -286,15 +302,15 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
             use super::*;
 
             /// Array offsets and lengths for all trailing arrays and nested types.
-            #tyvis_inner struct VarLenLayout<#(#layout_generics_structdef),*> #layout_generics_where {
+            #tyvis_inner struct VarLenLayout<#(#inner_layout_generics_structdef),*> #inner_layout_generics_where {
                 pub(super) __varlen_size: usize,
                 #(
                     pub(super) #varlen_ident: usize,
-                    pub(super) #varlen_layout_ident: #varlen_layout_ty,
+                    pub(super) #varlen_layout_ident: #inner_layout_ty,
                 )*
             }
 
-            impl<#(#layout_generics_impl),*> ::varlen::Layout for VarLenLayout<#(#layout_generics_apply),*> #layout_generics_where {
+            impl<#(#inner_layout_generics_impl),*> ::varlen::Layout for VarLenLayout<#(#layout_generics_apply),*> #inner_layout_generics_where {
                 #[inline(always)]
                 fn size(&self) -> usize {
                     self.__varlen_size
@@ -315,28 +331,28 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
 
             // Lengths are computed anew on every access, so they must not change through `&self`.
             #(
-                const _: () = ::varlen::macro_support::assert_no_interior_mutability::<#lengths_ty>();
+                const _: () = ::varlen::macro_support::assert_no_interior_mutability::<#inner_lengths_ty>();
             )*
 
             #tyvis_inner struct Init< #(#varlen_init_ty_param,)* > {
                 #(
                     #all_attr
-                    #all_vis_inner #all_ident: #all_init_ty,
+                    #all_vis_inner #all_ident: #inner_init_ty,
                 )*
             }
 
-            #tyvis_inner struct Muts<'a #(, #generics_structdef)*> {
+            #tyvis_inner struct Muts<'a #(, #inner_generics_structdef)*> {
                 #(
                     #all_attr
-                    #all_vis_inner #all_ident: #all_mut_ty,
+                    #all_vis_inner #all_ident: #inner_mut_ty,
                 )*
                 #marker_decl
             }
 
-            #tyvis_inner struct Refs<'a #(, #generics_structdef)*> {
+            #tyvis_inner struct Refs<'a #(, #inner_generics_structdef)*> {
                 #(
                     #all_attr
-                    #all_vis_inner #all_ident: #all_ref_ty,
+                    #all_vis_inner #all_ident: #inner_ref_ty,
                 )*
                 #marker_decl
             }
@@ -344,7 +360,7 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
             #tyvis_inner struct LayoutControllers {
                 #(
                     #lengths_attr
-                    #lengths_vis_inner #lengths_ident: #lengths_ty,
+                    #lengths_vis_inner #lengths_ident: #inner_lengths_ty,
                 )*
             }
         }
@@ -548,6 +564,45 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
     })
 }
 
+/// Rewrites relative paths (`self::T`, `super::T`), so that they mean the same in a module which is
+/// `depth` levels further down.
+fn spell_in_child_module(tokens: TokenStream, depth: usize) -> TokenStream {
+    let mut result = TokenStream::new();
+    let mut after_colons = 0;
+    let mut tokens = tokens.into_iter().peekable();
+    while let Some(token) = tokens.next() {
+        let mut colons = 0;
+        match token {
+            TokenTree::Group(g) => {
+                let inner = spell_in_child_module(g.stream(), depth);
+                let mut group = proc_macro2::Group::new(g.delimiter(), inner);
+                group.set_span(g.span());
+                result.extend([TokenTree::Group(group)]);
+            }
+            TokenTree::Ident(i)
+                if after_colons < 2
+                    && (i == "self" || i == "super")
+                    && matches!(tokens.peek(), Some(TokenTree::Punct(p)) if p.as_char() == ':') =>
+            {
+                let parent = Ident::new("super", i.span());
+                let ups = depth - 1 + (i == "super") as usize;
+                result.extend(quote!(#parent));
+                for _ in 0..ups {
+                    result.extend(quote!(::#parent));
+                }
+            }
+            token => {
+                if matches!(&token, TokenTree::Punct(p) if p.as_char() == ':') {
+                    colons = after_colons + 1;
+                }
+                result.extend([token]);
+            }
+        }
+        after_colons = colons;
+    }
+    result
+}
+
 #[derive(Clone, Copy, PartialOrd, Ord, PartialEq, Eq)]
 enum SimpleVisibility {
     Private = 0,
-- 
2.43.0


From 593cb8608b4c185a92fd9c7a6cab6a197b6683c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 18/22] fix: structs named Async, Dyn, Super and similar need
 another module name

---
 varlen_macro/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 380f9cc..4fc6f5b 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -191,10 +191,18 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
     let (tyvis, tyvis_inner) = SimpleVisibility::try_parse(&d.vis)?;
     let tyname = d.ident;
 
-    let mod_name = tyname.to_string().to_case(Case::Snake);
+    let mod_name = tyname.unraw().to_string().to_case(Case::Snake);
     // The struct may be called `Type` or `Match`: then the module needs a raw name.
-    let mut mod_name = syn::parse_str(&mod_name)
-        .unwrap_or_else(|_| Ident::new_raw(&mod_name, proc_macro2::Span::call_site()));
+    let mut mod_name = match mod_name.as_str() {
+        // Not keywords to syn, or to the 2015 edition.
+        "async" | "await" | "dyn" | "try" => {
+            Ident::new_raw(&mod_name, proc_macro2::Span::call_site())
+        }
+        // There are no raw identifiers for these.
+        "super" | "crate" | "self" => format_ident!("{}_", mod_name),
+        _ => syn::parse_str(&mod_name)
+            .unwrap_or_else(|_| Ident::new_raw(&mod_name, proc_macro2::Span::call_site())),
+    };
     mod_name.set_span(proc_macro2::Span::call_site());
 
     let FieldGroups {
-- 
2.43.0


From db2a0714859856ad5e14f12e98fb2683eb3828f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:03 +0000
Subject: [PATCH 19/22] fix: accept array types which were passed through
 another macro

---
 varlen_macro/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 4fc6f5b..90014e5 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -1034,7 +1034,15 @@ impl FieldGroups {
         let span = f.ty.span();
         let ty = f.ty;
 
-        let (elem_ty, len_expr) = match &ty {
+        // A type which was passed through another macro is in a group of its own.
+        let mut array_ty = &ty;
+        while let Type::Group(syn::TypeGroup { elem, .. })
+        | Type::Paren(syn::TypeParen { elem, .. }) = array_ty
+        {
+            array_ty = elem;
+        }
+
+        let (elem_ty, len_expr) = match array_ty {
             Type::Array(a) => {
                 let len = &a.len;
                 ((*a.elem).clone(), quote_spanned! {len.span()=> #len})
-- 
2.43.0


From 9ec71818b0462894414ef91d33d8b600adc6b668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 20/22] fix: newtype macros must call the trait's methods, not
 inherent ones of the same name

---
 varlen/src/newtype.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/varlen/src/newtype.rs b/varlen/src/newtype.rs
index 9cbe1e1..e3f7b55 100644
--- a/varlen/src/newtype.rs
+++ b/varlen/src/newtype.rs
@@ -192,7 +192,7 @@ macro_rules! define_varlen_newtype {
             type Layout = <$inner as $crate::VarLen>::Layout;
             #[inline(always)]
             fn calculate_layout(&self) -> Self::Layout {
-                self.0.calculate_layout()
+                <$inner as $crate::VarLen>::calculate_layout(&self.0)
             }
 
             const ALIGN: usize = <$inner as $crate::VarLen>::ALIGN;
@@ -200,7 +200,7 @@ macro_rules! define_varlen_newtype {
 
             #[inline(always)]
             unsafe fn vdrop(self: ::core::pin::Pin<&mut Self>, layout: Self::Layout) {
-                if !Self::NEEDS_VDROP {
+                if !<Self as $crate::VarLen>::NEEDS_VDROP {
                     return;
                 }
                 <$inner as $crate::VarLen>::vdrop(self.map_unchecked_mut(|outer| &mut outer.0), layout);
@@ -215,7 +215,7 @@ macro_rules! define_varlen_newtype {
 
             #[inline(always)]
             unsafe fn initialize(self, dst: ::core::ptr::NonNull<$outer $(< $($($generics_apply)*),* >)* >, layout: <$inner as $crate::VarLen>::Layout) {
-                self.0.initialize(dst.cast::<$inner>(), layout);
+                <InnerInit as $crate::Initializer<$inner>>::initialize(self.0, dst.cast::<$inner>(), layout);
             }
         }
 
@@ -315,7 +315,7 @@ macro_rules! impl_initializer_as_newtype {
                 // Safety:
                 // * validity of dst is ensured by caller
                 // * layout matches what we called layout on above, on `self.0`
-                self.0.initialize(dst, layout);
+                $crate::Initializer::<$t>::initialize(self.0, dst, layout);
             }
         }
     }
-- 
2.43.0


From bc0234c185096abc6837e1102b443bd754f5548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:21 +0000
Subject: [PATCH 21/22] fix: newtype macro's type parameter must not capture a
 user type

---
 varlen/src/newtype.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/varlen/src/newtype.rs b/varlen/src/newtype.rs
index e3f7b55..237fad0 100644
--- a/varlen/src/newtype.rs
+++ b/varlen/src/newtype.rs
@@ -186,7 +186,7 @@ macro_rules! define_varlen_newtype {
         $tyvis struct $outer $(< $($($generics)*),* >)* ($fieldvis $inner);
 
         $(#[$initattrs])*
-        $initvis struct $init < InnerInit >($initfieldvis InnerInit);
+        $initvis struct $init < __VarlenInnerInit >($initfieldvis __VarlenInnerInit);
 
         unsafe impl $(< $($($generic_params)*),* >)* $crate::VarLen for $outer $(< $($($generics_apply)*),* >)* {
             type Layout = <$inner as $crate::VarLen>::Layout;
@@ -207,15 +207,15 @@ macro_rules! define_varlen_newtype {
             }
         }
 
-        unsafe impl< $( $($($generic_params)*,)* )* InnerInit: $crate::Initializer<$inner>> $crate::Initializer<$outer $(< $($($generics_apply)*),* >)* > for $init<InnerInit> {
+        unsafe impl< $( $($($generic_params)*,)* )* __VarlenInnerInit: $crate::Initializer<$inner>> $crate::Initializer<$outer $(< $($($generics_apply)*),* >)* > for $init<__VarlenInnerInit> {
             #[inline(always)]
             fn calculate_layout_cautious(&self) -> ::core::option::Option<<$inner as $crate::VarLen>::Layout> {
-                <InnerInit as $crate::Initializer<$inner>>::calculate_layout_cautious(&self.0)
+                <__VarlenInnerInit as $crate::Initializer<$inner>>::calculate_layout_cautious(&self.0)
             }
 
             #[inline(always)]
             unsafe fn initialize(self, dst: ::core::ptr::NonNull<$outer $(< $($($generics_apply)*),* >)* >, layout: <$inner as $crate::VarLen>::Layout) {
-                <InnerInit as $crate::Initializer<$inner>>::initialize(self.0, dst.cast::<$inner>(), layout);
+                <__VarlenInnerInit as $crate::Initializer<$inner>>::initialize(self.0, dst.cast::<$inner>(), layout);
             }
         }
 
-- 
2.43.0


From aeddc742c8b2d31988db2d4ce6ce0f056407d722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:21 +0000
Subject: [PATCH 22/22] fix: cat_field_fast reads memory its caller must vouch
 for, so it is unsafe

---
 varlen/src/macro_support.rs | 6 ++++--
 varlen/src/tuple.rs         | 5 ++++-
 varlen_macro/src/lib.rs     | 7 ++++---
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/varlen/src/macro_support.rs b/varlen/src/macro_support.rs
index fee13e6..32a3008 100644
--- a/varlen/src/macro_support.rs
+++ b/varlen/src/macro_support.rs
@@ -113,8 +113,10 @@ pub fn cat_field_cautious<Field: VarLen, Init: Initializer<Field>>(
     Some((offset, layout, size))
 }
 
+/// Safety: `parent+offset`, with `offset` rounded up to the alignment of `Field`, must have a valid
+/// `Field`.
 #[inline(always)]
-pub fn cat_field_fast<Field: VarLen, Parent>(
+pub unsafe fn cat_field_fast<Field: VarLen, Parent>(
     parent: &Parent,
     offset: usize,
 ) -> (
@@ -126,7 +128,7 @@ pub fn cat_field_fast<Field: VarLen, Parent>(
     let offset = offset.wrapping_add(align - 1) & 0usize.wrapping_sub(align);
 
     let child: &Field =
-        unsafe { &*((parent as *const Parent as *const u8).wrapping_add(offset) as *const Field) };
+        &*((parent as *const Parent as *const u8).wrapping_add(offset) as *const Field);
     let layout = child.calculate_layout();
 
     let size = offset.wrapping_add(layout.size());
diff --git a/varlen/src/tuple.rs b/varlen/src/tuple.rs
index e1c5e81..ac2fad6 100644
--- a/varlen/src/tuple.rs
+++ b/varlen/src/tuple.rs
@@ -163,7 +163,10 @@ macro_rules! define_tuple {
             fn calculate_layout(&self) -> $mod::Layout<$($arg),*> {
                 let offset = core::mem::size_of::<Self>();
                 $(
-                    let ($offset, $layout, offset) = crate::macro_support::cat_field_fast::<$arg, _>(self, offset);
+                    let ($offset, $layout, offset) = unsafe {
+                        // Safety: `self` is a valid tuple, whose fields follow it in order.
+                        crate::macro_support::cat_field_fast::<$arg, _>(self, offset)
+                    };
                 )*
                 let size = offset;
                 $mod::Layout{size,
diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 90014e5..c159640 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -983,11 +983,12 @@ impl FieldGroups {
             .push(quote_spanned! { span =>
                 ::varlen::macro_support::cat_field_cautious::<#ty, _>(&self.#ident, __varlen_size)
             });
+        let cat_field_fast = quote_spanned! { span =>
+            ::varlen::macro_support::cat_field_fast::<#ty, _>(self, __varlen_size)
+        };
         self.varlen_fields
             .cat_field_fast
-            .push(quote_spanned! { span =>
-                ::varlen::macro_support::cat_field_fast::<#ty, _>(self, __varlen_size)
-            });
+            .push(quote! { unsafe { #cat_field_fast } });
         self.varlen_fields
             .align_of_field
             .push(quote_spanned! { span =>
-- 
2.43.0

