From fac6241af690713b5af772f3230bb4c0f3c70b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 01/14] fix: do not drop zero-sized values when boxing them

TaggedBox::new and new_unchecked dropped a zero-sized value while into_inner
later produced it again, so its destructor ran twice.
---
 src/tagged_box.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tagged_box.rs b/src/tagged_box.rs
index 730a83e..539e8cc 100644
--- a/src/tagged_box.rs
+++ b/src/tagged_box.rs
@@ -81,7 +81,11 @@ impl<T> TaggedBox<T> {
     #[inline]
     pub fn new<U>(val: U, discriminant: Discriminant) -> Self {
         if mem::size_of::<U>() == 0 {
-            Self::dangling::<U>(discriminant)
+            let tagged = Self::dangling::<U>(discriminant);
+            // The box owns the value now, it must not be dropped here
+            mem::forget(val);
+
+            tagged
         } else {
             let layout = Layout::new::<U>();
 
@@ -174,7 +178,11 @@ impl<T> TaggedBox<T> {
     #[inline]
     pub unsafe fn new_unchecked<U>(val: U, discriminant: Discriminant) -> Self {
         if mem::size_of::<U>() == 0 {
-            Self::dangling::<U>(discriminant)
+            let tagged = Self::dangling::<U>(discriminant);
+            // The box owns the value now, it must not be dropped here
+            mem::forget(val);
+
+            tagged
         } else {
             let layout = Layout::new::<U>();
 
-- 
2.43.0


From 0340aefc3a41aeb7f7434fe4959006276ab1688b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 02/14] fix: the 52bits width has 12 free bits, so
 discriminants up to 4095

---
 src/discriminant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/discriminant.rs b/src/discriminant.rs
index b0a42be..a9153dc 100644
--- a/src/discriminant.rs
+++ b/src/discriminant.rs
@@ -80,7 +80,7 @@ generate_discriminants! {
     [tagged_box_reserve_55bits, u16, 511,   55, 9 ],
     [tagged_box_reserve_54bits, u16, 1023,  54, 10],
     [tagged_box_reserve_53bits, u16, 2047,  53, 11],
-    [tagged_box_reserve_52bits, u16, 4068,  52, 12],
+    [tagged_box_reserve_52bits, u16, 4095,  52, 12],
     [tagged_box_reserve_51bits, u16, 8191,  51, 13],
     [tagged_box_reserve_50bits, u16, 16383, 50, 14],
     [tagged_box_reserve_49bits, u16, 32767, 49, 15],
-- 
2.43.0


From 1753ff77b6cea0b1fa2a7da9692340a3d35c4572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 03/14] fix: from_tagged_box reads tuple variants with the
 layout they are stored in

Tuple variants are stored as a repr(C) struct, but from_tagged_box read them
back as a Rust tuple, whose fields may be laid out in another order.
---
 src/tagged_box_macro/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 8e72f1e..ed6eb92 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -297,7 +297,11 @@ macro_rules! __from_tagged_box {
             [
                 $($tt)*
                 discrim if discrim == $counter::$variant as u8 => {
-                    $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<($( $ty ),*)>($tagged), $( $ty ),*)
+                    #[allow(dead_code)]
+                    #[repr(C)]
+                    struct $variant($( $ty ),*);
+
+                    $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<$variant>($tagged), $( $ty ),*)
                 },
             ] $($rest)*
         )
-- 
2.43.0


From b1777be8801d5d3db86e1b1b5995129112b7c509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 04/14] fix: tagged_box! compiles at widths with 16-bit
 discriminants

The generated code cast every discriminant to u8, a type error for the
48bits to 55bits widths.
---
 src/tagged_box_macro/meta_macros.rs | 78 ++++++++++++++---------------
 src/tagged_box_macro/mod.rs         | 38 +++++++-------
 2 files changed, 58 insertions(+), 58 deletions(-)

diff --git a/src/tagged_box_macro/meta_macros.rs b/src/tagged_box_macro/meta_macros.rs
index 47596bb..b574f12 100644
--- a/src/tagged_box_macro/meta_macros.rs
+++ b/src/tagged_box_macro/meta_macros.rs
@@ -330,7 +330,7 @@ macro_rules! generate_tuple_arm_expansion {
                 //     $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
                 //          [
                 //              $( $finished )*
-                //              $enum::$variant() => $crate::TaggedBox::dangling::<$enum>($counter::$variant as u8),
+                //              $enum::$variant() => $crate::TaggedBox::dangling::<$enum>($counter::$variant as $crate::discriminant::Discriminant),
                 //         ]
                 //         $( $rest )*
                 //     )
@@ -339,7 +339,7 @@ macro_rules! generate_tuple_arm_expansion {
                     $dollar crate::__taggable_into_box!(@inner $dollar tagged, $dollar enum, $dollar counter
                             [
                             $dollar ( $dollar finished )*
-                            $dollar enum::$dollar variant() => $dollar crate::TaggedBox::dangling::<$dollar enum>($dollar counter::$dollar variant as u8),
+                            $dollar enum::$dollar variant() => $dollar crate::TaggedBox::dangling::<$dollar enum>($dollar counter::$dollar variant as $dollar crate::discriminant::Discriminant),
                         ]
                         $dollar ( $dollar rest )*
                 )
@@ -348,7 +348,7 @@ macro_rules! generate_tuple_arm_expansion {
                 //     $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
                 //          [
                 //              $( $finished )*
-                //              $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as u8),
+                //              $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as $crate::discriminant::Discriminant),
                 //         ]
                 //         $( $rest )*
                 //     )
@@ -357,7 +357,7 @@ macro_rules! generate_tuple_arm_expansion {
                     $dollar crate::__taggable_into_box!(@inner $dollar tagged, $dollar enum, $dollar counter
                             [
                             $dollar ( $dollar finished )*
-                            $dollar enum::$dollar variant() => $dollar crate::TaggedBox::<$dollar enum>::dangling::<$dollar enum>($dollar counter::$dollar variant as u8),
+                            $dollar enum::$dollar variant() => $dollar crate::TaggedBox::<$dollar enum>::dangling::<$dollar enum>($dollar counter::$dollar variant as $dollar crate::discriminant::Discriminant),
                         ]
                         $dollar ( $dollar rest )*
                 )
@@ -380,7 +380,7 @@ macro_rules! generate_tuple_arm_expansion {
                 //                  #[repr(C)]
                 //                  struct $variant($( $ty ),*);
                 //
-                //                  $crate::TaggedBox::<$enum>::new($variant(a, b, c), $counter::$variant as u8)
+                //                  $crate::TaggedBox::<$enum>::new($variant(a, b, c), $counter::$variant as $crate::discriminant::Discriminant)
                 //              }
                 //         ]
                 //         $( $rest )*
@@ -447,7 +447,7 @@ macro_rules! __expand_tuple_arm {
       $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
             [
                 $( $finished )*
-                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as u8),
+                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as $crate::discriminant::Discriminant),
             ]
             $( $rest )*
         )
@@ -456,7 +456,7 @@ macro_rules! __expand_tuple_arm {
       $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
             [
                 $( $finished )*
-                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as u8),
+                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as $crate::discriminant::Discriminant),
             ]
             $( $rest )*
         )
@@ -469,7 +469,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -483,7 +483,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -497,7 +497,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -511,7 +511,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -525,7 +525,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -539,7 +539,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -553,7 +553,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -567,7 +567,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -581,7 +581,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -595,7 +595,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -609,7 +609,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -623,7 +623,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -637,7 +637,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -651,7 +651,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -665,7 +665,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -679,7 +679,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -693,7 +693,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -707,7 +707,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -721,7 +721,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -735,7 +735,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -749,7 +749,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -763,7 +763,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -777,7 +777,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -791,7 +791,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -805,7 +805,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -819,7 +819,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -833,7 +833,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -847,7 +847,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -861,7 +861,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -875,7 +875,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -889,7 +889,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -903,7 +903,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee,ff), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee,ff), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index ed6eb92..1fe295a 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -42,7 +42,7 @@ macro_rules! __taggable_into_box {
             [
                 $( $finished )*
                 $enum::$variant(var) => {
-                    $crate::TaggedBox::<$enum>::new::<$ty>(var, $counter::$variant as u8)
+                    $crate::TaggedBox::<$enum>::new::<$ty>(var, $counter::$variant as $crate::discriminant::Discriminant)
                 },
             ]
             $( $rest )*
@@ -62,7 +62,7 @@ macro_rules! __taggable_into_box {
                     struct $variant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as u8)
+                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as $crate::discriminant::Discriminant)
                 }
             ]
             $( $rest )*
@@ -77,7 +77,7 @@ macro_rules! __taggable_into_box {
                     struct $variant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as u8)
+                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as $crate::discriminant::Discriminant)
                 }
             ]
             $( $rest )*
@@ -88,7 +88,7 @@ macro_rules! __taggable_into_box {
         $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
             [
                 $( $finished )*
-                $enum::$variant => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as u8),
+                $enum::$variant => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as $crate::discriminant::Discriminant),
             ]
             $( $rest )*
         )
@@ -184,7 +184,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident($ty:ty), $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => {
+            discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                 // TODO: Inline variables
                 // if $crate::__generate_const_sizes!($ty) <= $crate::discriminant::DISCRIMINANT_BITS as usize {
                 //     todo!("Store small variables directly in the pointer")
@@ -199,7 +199,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident($($ty:ty),*), $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => {
+            discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                 #[allow(dead_code)]
                 #[repr(C)]
                 struct $variant($( $ty ),*);
@@ -218,7 +218,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident { $($ident:ident: $ty:ty),* }, $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => {
+            discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                 // TODO: Miniscule pointer storage can be preformed here too
                 #[repr(C)]
                 struct $variant {
@@ -232,7 +232,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident { $($ident:ident: $ty:ty,)* }, $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => {
+            discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                 // TODO: Miniscule pointer storage can be preformed here too
                 #[repr(C)]
                 struct $variant {
@@ -247,7 +247,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident, $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => $enum::$variant,
+            discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => $enum::$variant,
         ] $( $rest )*);
     };
 
@@ -280,7 +280,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                     $enum::$variant($crate::TaggedBox::<$enum>::into_inner::<$ty>($tagged))
                 },
             ] $($rest)*
@@ -296,7 +296,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                     #[allow(dead_code)]
                     #[repr(C)]
                     struct $variant($( $ty ),*);
@@ -316,7 +316,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                     #[repr(C)]
                     struct $variant {
                         $( $ident: $ty ),*
@@ -336,7 +336,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                     #[repr(C)]
                     struct $variant {
                         $( $ident: $ty ),*
@@ -357,7 +357,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => $enum::$variant,
+                discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => $enum::$variant,
             ] $($rest)*
         )
     };
@@ -397,7 +397,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                     let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::new($enum::$variant($tagged.as_ptr::<$ty>().read()));
                     ($callback)(&variant);
                 }
@@ -415,7 +415,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $( $tt )*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                     #[repr(C)]
                     struct $variant($( $ty ),*);
 
@@ -444,7 +444,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $( $tt )*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                     #[repr(C)]
                     struct $variant {
                         $( $ident: $ty ),*
@@ -467,7 +467,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $( $tt )*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                     #[repr(C)]
                     struct $variant {
                         $( $ident: $ty ),*
@@ -491,7 +491,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $( $tt )*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                     let variant: $enum = $enum::$variant;
                     ($callback)(&variant);
                 }
-- 
2.43.0


From 3e3c5692171885a6ec258ed205224e94c93a7665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 05/14] fix: out-of-range discriminants and pointers panic in
 every build profile

TaggedPointer::new documents that it panics, but only did so with debug
assertions on, and dangling did not check at all: the excess bits were cut
off, so the value was stored under another discriminant. The safe tagged_box!
interface then read it back as a different variant.
---
 src/tagged_pointer.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/tagged_pointer.rs b/src/tagged_pointer.rs
index c4eb53b..38f5cfc 100644
--- a/src/tagged_pointer.rs
+++ b/src/tagged_pointer.rs
@@ -27,13 +27,13 @@ impl TaggedPointer {
     #[inline]
     #[allow(clippy::absurd_extreme_comparisons)]
     pub fn new(ptr: u64, discriminant: Discriminant) -> Self {
-        debug_assert!(
+        assert!(
             discriminant <= MAX_DISCRIMINANT,
             "Attempted to store a discriminant of {} while the max value is {}",
             discriminant,
             MAX_DISCRIMINANT,
         );
-        debug_assert!(
+        assert!(
             ptr <= MAX_POINTER_VALUE,
             "If you are receiving this error, then your hardware uses more than {} bits of a pointer to store addresses. \
             It is recommended that you use a different feature for the `tagged-box` crate using `features = [\"{}bits\"]` or above.
@@ -47,8 +47,21 @@ impl TaggedPointer {
         Self { tagged_ptr }
     }
 
+    /// Creates a tagged pointer that is dangling, but well-aligned for `T`
+    ///
+    /// # Panics
+    ///
+    /// Panics if `discriminant` is greater than [`MAX_DISCRIMINANT`]
+    ///
+    /// [`MAX_DISCRIMINANT`]: crate::discriminant::MAX_DISCRIMINANT
     #[inline]
+    #[allow(clippy::absurd_extreme_comparisons)]
     pub const fn dangling<T: Sized>(discriminant: Discriminant) -> Self {
+        assert!(
+            discriminant <= MAX_DISCRIMINANT,
+            "Attempted to store a discriminant that is larger than the max value",
+        );
+
         Self {
             tagged_ptr: Self::store_discriminant(core::mem::align_of::<T>() as u64, discriminant),
         }
-- 
2.43.0


From fd53b08f5b399a4bea9f2413c540d1036ce19279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 06/14] fix: formatting a TaggedBox honors the formatter's
 flags

Width, fill, precision and the alternate flag were dropped, unlike with Box.
---
 src/tagged_box.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tagged_box.rs b/src/tagged_box.rs
index 539e8cc..298b023 100644
--- a/src/tagged_box.rs
+++ b/src/tagged_box.rs
@@ -496,7 +496,7 @@ where
         let mut result = Ok(());
         unsafe {
             T::ref_from_tagged_box(self, |this| {
-                result = write!(f, "{:?}", this);
+                result = fmt::Debug::fmt(this, f);
             });
         }
 
@@ -512,7 +512,7 @@ where
         let mut result = Ok(());
         unsafe {
             T::ref_from_tagged_box(self, |this| {
-                result = write!(f, "{}", this);
+                result = fmt::Display::fmt(this, f);
             });
         }
 
-- 
2.43.0


From 620c64fbb02da0b56534b55d3c6d5ac39a7e8464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 07/14] fix: rebuild when TAGGED_BOX_RESERVED_WIDTH changes

Cargo kept using the width of the first build, as the build script was not
run again when only the environment variable had changed.
---
 build.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/build.rs b/build.rs
index e09a66c..aa5efc1 100644
--- a/build.rs
+++ b/build.rs
@@ -1,4 +1,7 @@
 fn main() {
+    println!("cargo:rerun-if-changed=build.rs");
+    println!("cargo:rerun-if-env-changed=TAGGED_BOX_RESERVED_WIDTH");
+
     if let Ok(var) = dbg!(std::env::var("TAGGED_BOX_RESERVED_WIDTH")) {
         match &*var {
             "63bits" => println!("cargo:rustc-cfg=tagged_box_reserve_63bits"),
-- 
2.43.0


From 2200eb7711a778ff36b4774378430bf06c5f5229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:56 +0000
Subject: [PATCH 08/14] fix: refuse enums with more variants than there are
 discriminants

The cast to the discriminant type wrapped around, so an excess variant was
stored under the discriminant of an earlier one and read back as it.
---
 src/tagged_box_macro/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 1fe295a..3a19028 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -790,6 +790,13 @@ macro_rules! tagged_box {
                     $( $variants )+
                 }
 
+                // Variants past `MAX_DISCRIMINANT` could not be told apart from earlier ones
+                const _: () = assert!(
+                    $crate::__count_variants!($( $variants )+) - 1
+                        <= $crate::discriminant::MAX_DISCRIMINANT as usize,
+                    "The enum has more variants than there are discriminants",
+                );
+
                 $crate::__taggable_into_box!( self, $enum, __tagged_box_enum_counter, $( $variants )+)
             }
 
-- 
2.43.0


From d850b9f22e0190e486516f4a1d102f8f350f4c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 09/14] fix: TaggedBox::new drops a value whose discriminant it
 refuses

The value and its allocation were lost, as the discriminant was only checked
once the value had been moved to the heap.
---
 src/tagged_box.rs     |  4 ++++
 src/tagged_pointer.rs | 18 +++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/tagged_box.rs b/src/tagged_box.rs
index 298b023..700cd15 100644
--- a/src/tagged_box.rs
+++ b/src/tagged_box.rs
@@ -80,6 +80,10 @@ impl<T> TaggedBox<T> {
     ///
     #[inline]
     pub fn new<U>(val: U, discriminant: Discriminant) -> Self {
+        // Refuse the discriminant while the value is still owned by this function, so that
+        // it's dropped and no memory is lost
+        TaggedPointer::assert_discriminant(discriminant);
+
         if mem::size_of::<U>() == 0 {
             let tagged = Self::dangling::<U>(discriminant);
             // The box owns the value now, it must not be dropped here
diff --git a/src/tagged_pointer.rs b/src/tagged_pointer.rs
index 38f5cfc..30f8c36 100644
--- a/src/tagged_pointer.rs
+++ b/src/tagged_pointer.rs
@@ -55,18 +55,26 @@ impl TaggedPointer {
     ///
     /// [`MAX_DISCRIMINANT`]: crate::discriminant::MAX_DISCRIMINANT
     #[inline]
-    #[allow(clippy::absurd_extreme_comparisons)]
     pub const fn dangling<T: Sized>(discriminant: Discriminant) -> Self {
-        assert!(
-            discriminant <= MAX_DISCRIMINANT,
-            "Attempted to store a discriminant that is larger than the max value",
-        );
+        Self::assert_discriminant(discriminant);
 
         Self {
             tagged_ptr: Self::store_discriminant(core::mem::align_of::<T>() as u64, discriminant),
         }
     }
 
+    /// Panics if `discriminant` is greater than [`MAX_DISCRIMINANT`]
+    ///
+    /// [`MAX_DISCRIMINANT`]: crate::discriminant::MAX_DISCRIMINANT
+    #[inline]
+    #[allow(clippy::absurd_extreme_comparisons)]
+    pub(crate) const fn assert_discriminant(discriminant: Discriminant) {
+        assert!(
+            discriminant <= MAX_DISCRIMINANT,
+            "Attempted to store a discriminant that is larger than the max value",
+        );
+    }
+
     /// Fetches the [`Discriminant`] of a tagged pointer
     ///
     /// [`Discriminant`]: crate::Discriminant
-- 
2.43.0


From 7e50fe99703abb24571fb72463f1e374dad609c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:38 +0000
Subject: [PATCH 10/14] fix: tagged_box! variants may be named like a type they
 contain or like the enum

The struct a multi-field variant is stored as was named after the variant and
shadowed the type, so that e.g. `String(String, u8)` did not compile.
---
 src/tagged_box_macro/meta_macros.rs | 134 ++++++++++++++--------------
 src/tagged_box_macro/mod.rs         |  50 +++++------
 2 files changed, 92 insertions(+), 92 deletions(-)

diff --git a/src/tagged_box_macro/meta_macros.rs b/src/tagged_box_macro/meta_macros.rs
index b574f12..9684018 100644
--- a/src/tagged_box_macro/meta_macros.rs
+++ b/src/tagged_box_macro/meta_macros.rs
@@ -378,7 +378,7 @@ macro_rules! generate_tuple_arm_expansion {
                 //              $( $finished )*
                 //             $enum::$variant(a, b, c) => {
                 //                  #[repr(C)]
-                //                  struct $variant($( $ty ),*);
+                //                  struct __TaggedBoxVariant($( $ty ),*);
                 //
                 //                  $crate::TaggedBox::<$enum>::new($variant(a, b, c), $counter::$variant as $crate::discriminant::Discriminant)
                 //              }
@@ -392,9 +392,9 @@ macro_rules! generate_tuple_arm_expansion {
                             $dollar ( $dollar finished )*
                             $dollar enum::$dollar variant($( $access, )* $ident) => {
                                 #[repr(C)]
-                                struct $dollar variant($dollar ($dollar ty),*);
+                                struct __TaggedBoxVariant($dollar ($dollar ty),*);
 
-                                $dollar crate::TaggedBox::<$dollar enum>::new::<$dollar variant>($dollar variant($( $access, )* $ident), $dollar counter::$dollar variant as _)
+                                $dollar crate::TaggedBox::<$dollar enum>::new::<__TaggedBoxVariant>(__TaggedBoxVariant($( $access, )* $ident), $dollar counter::$dollar variant as _)
                             }
                         ]
                         $dollar ( $dollar rest )*
@@ -467,9 +467,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -481,9 +481,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -495,9 +495,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -509,9 +509,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -523,9 +523,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -537,9 +537,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -551,9 +551,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -565,9 +565,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -579,9 +579,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -593,9 +593,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -607,9 +607,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -621,9 +621,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -635,9 +635,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -649,9 +649,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -663,9 +663,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -677,9 +677,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -691,9 +691,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -705,9 +705,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -719,9 +719,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -733,9 +733,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -747,9 +747,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -761,9 +761,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -775,9 +775,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -789,9 +789,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -803,9 +803,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -817,9 +817,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -831,9 +831,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -845,9 +845,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -859,9 +859,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -873,9 +873,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -887,9 +887,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
@@ -901,9 +901,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee,ff) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee,ff), $counter::$variant as $crate::discriminant::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee,ff), $counter::$variant as $crate::discriminant::Discriminant)
             }
         ]
         $( $rest )*
diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 3a19028..8a110eb 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -59,10 +59,10 @@ macro_rules! __taggable_into_box {
                 $( $tt )*
                 $enum::$variant { $( $member ),* } => {
                     #[repr(C)]
-                    struct $variant {
+                    struct __TaggedBoxVariant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as $crate::discriminant::Discriminant)
+                    $crate::TaggedBox::<$enum>::new::<__TaggedBoxVariant>(__TaggedBoxVariant { $( $member ),* }, $counter::$variant as $crate::discriminant::Discriminant)
                 }
             ]
             $( $rest )*
@@ -74,10 +74,10 @@ macro_rules! __taggable_into_box {
                 $( $tt )*
                 $enum::$variant { $( $member ),* } => {
                     #[repr(C)]
-                    struct $variant {
+                    struct __TaggedBoxVariant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as $crate::discriminant::Discriminant)
+                    $crate::TaggedBox::<$enum>::new::<__TaggedBoxVariant>(__TaggedBoxVariant { $( $member ),* }, $counter::$variant as $crate::discriminant::Discriminant)
                 }
             ]
             $( $rest )*
@@ -202,15 +202,15 @@ macro_rules! __boxed_into_inner {
             discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                 #[allow(dead_code)]
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
                 // TODO: Inline variables
                 // if $crate::__generate_const_sizes!($( $ty ),*) <= $crate::discriminant::DISCRIMINANT_BITS as usize {
                 //     todo!("Store small variables directly in the pointer")
                 // } else {
-                //     $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<$variant>($tagged), $($ty),*)
+                //     $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<__TaggedBoxVariant>($tagged), $($ty),*)
                 // }
-                $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<$variant>($tagged), $($ty),*)
+                $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<__TaggedBoxVariant>($tagged), $($ty),*)
             },
         ] $( $rest )*);
     };
@@ -221,10 +221,10 @@ macro_rules! __boxed_into_inner {
             discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                 // TODO: Miniscule pointer storage can be preformed here too
                 #[repr(C)]
-                struct $variant {
+                struct __TaggedBoxVariant {
                     $( $ident: $ty ),*
                 }
-                let $variant { $( $ident ),* } = $crate::TaggedBox::<$enum>::into_inner::<$variant>($tagged);
+                let __TaggedBoxVariant { $( $ident ),* } = $crate::TaggedBox::<$enum>::into_inner::<__TaggedBoxVariant>($tagged);
                 $enum::$variant { $( $ident ),* }
             },
         ] $( $rest )*);
@@ -235,10 +235,10 @@ macro_rules! __boxed_into_inner {
             discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                 // TODO: Miniscule pointer storage can be preformed here too
                 #[repr(C)]
-                struct $variant {
+                struct __TaggedBoxVariant {
                     $( $ident: $ty ),*
                 }
-                let $variant { $( $ident ),* } = $crate::TaggedBox::<$enum>::into_inner::<$variant>($tagged);
+                let __TaggedBoxVariant { $( $ident ),* } = $crate::TaggedBox::<$enum>::into_inner::<__TaggedBoxVariant>($tagged);
                 $enum::$variant { $( $ident ),* }
             },
         ] $( $rest )*);
@@ -299,9 +299,9 @@ macro_rules! __from_tagged_box {
                 discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                     #[allow(dead_code)]
                     #[repr(C)]
-                    struct $variant($( $ty ),*);
+                    struct __TaggedBoxVariant($( $ty ),*);
 
-                    $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<$variant>($tagged), $( $ty ),*)
+                    $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<__TaggedBoxVariant>($tagged), $( $ty ),*)
                 },
             ] $($rest)*
         )
@@ -318,10 +318,10 @@ macro_rules! __from_tagged_box {
                 $($tt)*
                 discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                     #[repr(C)]
-                    struct $variant {
+                    struct __TaggedBoxVariant {
                         $( $ident: $ty ),*
                     }
-                    let $variant { $( $ident ),* } = $crate::TaggedBox::<$enum>::into_inner::<$variant>($tagged);
+                    let __TaggedBoxVariant { $( $ident ),* } = $crate::TaggedBox::<$enum>::into_inner::<__TaggedBoxVariant>($tagged);
                     $enum::$variant { $( $ident ),* }
                 },
             ] $($rest)*
@@ -338,10 +338,10 @@ macro_rules! __from_tagged_box {
                 $($tt)*
                 discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                     #[repr(C)]
-                    struct $variant {
+                    struct __TaggedBoxVariant {
                         $( $ident: $ty ),*
                     }
-                    let $variant { $( $ident ),* } = $crate::TaggedBox::<$enum>::into_inner::<$variant>($tagged);
+                    let __TaggedBoxVariant { $( $ident ),* } = $crate::TaggedBox::<$enum>::into_inner::<__TaggedBoxVariant>($tagged);
                     $enum::$variant { $( $ident ),* }
                 },
             ] $($rest)*
@@ -417,12 +417,12 @@ macro_rules! __ref_from_tagged {
                 $( $tt )*
                 discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                     #[repr(C)]
-                    struct $variant($( $ty ),*);
+                    struct __TaggedBoxVariant($( $ty ),*);
 
                     #[allow(unused_variables)]
-                    let tuple: $variant = $crate::__expand_tuple!(
-                        $variant,
-                        $tagged.as_ptr::<$variant>().read(),
+                    let tuple: __TaggedBoxVariant = $crate::__expand_tuple!(
+                        __TaggedBoxVariant,
+                        $tagged.as_ptr::<__TaggedBoxVariant>().read(),
                         $( $ty ),*
                     );
                     let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::<$enum>::new($crate::__expand_tuple!($enum::$variant, tuple, $($ty),*));
@@ -446,10 +446,10 @@ macro_rules! __ref_from_tagged {
                 $( $tt )*
                 discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                     #[repr(C)]
-                    struct $variant {
+                    struct __TaggedBoxVariant {
                         $( $ident: $ty ),*
                     }
-                    let $variant { $( $ident ),* } = $tagged.as_ptr::<$variant>().read();
+                    let __TaggedBoxVariant { $( $ident ),* } = $tagged.as_ptr::<__TaggedBoxVariant>().read();
                     let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::new($enum::$variant { $( $ident ),* });
                     ($callback)(&*variant);
                 }
@@ -469,10 +469,10 @@ macro_rules! __ref_from_tagged {
                 $( $tt )*
                 discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
                     #[repr(C)]
-                    struct $variant {
+                    struct __TaggedBoxVariant {
                         $( $ident: $ty ),*
                     }
-                    let $variant { $( $ident ),* } = $tagged.as_ptr::<$variant>().read();
+                    let __TaggedBoxVariant { $( $ident ),* } = $tagged.as_ptr::<__TaggedBoxVariant>().read();
                     let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::new($enum::$variant { $( $ident ),* });
                     ($callback)(&*variant);
                 }
-- 
2.43.0


From 4705a3d08fff8d0d68e8230a677cf2c2bd0d7dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 11/14] fix: tagged_box! enums may be named F

---
 src/tagged_box_macro/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 8a110eb..e5deb6e 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -820,9 +820,12 @@ macro_rules! tagged_box {
                 }
             }
 
-            unsafe fn ref_from_tagged_box<F>(tagged: &$crate::TaggedBox<$enum>, callback: F)
+            unsafe fn ref_from_tagged_box<__TaggedBoxCallback>(
+                tagged: &$crate::TaggedBox<$enum>,
+                callback: __TaggedBoxCallback,
+            )
             where
-                F: FnOnce(&$enum),
+                __TaggedBoxCallback: FnOnce(&$enum),
             {
                 $crate::__counter_enum! {
                     $( $variants )+
-- 
2.43.0


From ed4af8be7509498ecc814f486f79bca02b5a2bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:55 +0000
Subject: [PATCH 12/14] fix: formatting a TaggedBox does not need its enum to
 be Clone

---
 src/tagged_box.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tagged_box.rs b/src/tagged_box.rs
index 700cd15..1165075 100644
--- a/src/tagged_box.rs
+++ b/src/tagged_box.rs
@@ -494,7 +494,7 @@ impl<T> TaggedBox<T> {
 
 impl<T> fmt::Debug for TaggedBox<T>
 where
-    T: TaggableInner + fmt::Debug + Clone,
+    T: TaggableInner + fmt::Debug,
 {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut result = Ok(());
@@ -510,7 +510,7 @@ where
 
 impl<T> fmt::Display for TaggedBox<T>
 where
-    T: TaggableInner + fmt::Display + Clone,
+    T: TaggableInner + fmt::Display,
 {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut result = Ok(());
-- 
2.43.0


From 6d8dde342992303390b05b3b8f9a263756fea4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 13/14] fix: the debug text of a TaggedPointer shows the whole
 raw word on 32-bit targets

---
 src/tagged_pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tagged_pointer.rs b/src/tagged_pointer.rs
index 30f8c36..b6e1aff 100644
--- a/src/tagged_pointer.rs
+++ b/src/tagged_pointer.rs
@@ -172,7 +172,7 @@ impl TaggedPointer {
 impl fmt::Debug for TaggedPointer {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         f.debug_struct("TaggedPointer")
-            .field("raw", &(self.as_raw_u64() as *const ()))
+            .field("raw", &format_args!("{:#x}", self.as_raw_u64()))
             .field("ptr", &self.as_ptr::<()>())
             .field("discriminant", &self.discriminant())
             .finish()
-- 
2.43.0


From c62fbc6593ac7968e35b77931afdc84922dc76a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:13 +0000
Subject: [PATCH 14/14] fix: borrowing a unit variant ran the destructor of an
 enum that implements Drop

---
 src/tagged_box_macro/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index e5deb6e..04dee0e 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -492,7 +492,7 @@ macro_rules! __ref_from_tagged {
             [
                 $( $tt )*
                 discrim if discrim == $counter::$variant as $crate::discriminant::Discriminant => {
-                    let variant: $enum = $enum::$variant;
+                    let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::new($enum::$variant);
                     ($callback)(&variant);
                 }
             ]
-- 
2.43.0

