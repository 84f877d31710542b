From 88b9482fff734faba543966d9b3e867a073b71a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 01/19] fix: compare annotated dimensions exactly, treating
 absent base dimensions as exponent zero

---
 crates/diman_unit_system/src/dimension_math.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/diman_unit_system/src/dimension_math.rs b/crates/diman_unit_system/src/dimension_math.rs
index e39482f..9e3a710 100644
--- a/crates/diman_unit_system/src/dimension_math.rs
+++ b/crates/diman_unit_system/src/dimension_math.rs
@@ -21,15 +21,16 @@ pub struct DimensionsAndMagnitude {
 
 impl PartialEq for BaseDimensions {
     fn eq(&self, other: &Self) -> bool {
-        self.fields.iter().all(|(dimension, value)| {
-            if let Some(corresponding_value) = other.fields.get(dimension) {
-                value == corresponding_value
-            } else {
-                false
-            }
-        })
+        // A base dimension that is missing is equivalent to one with exponent zero.
+        let exponent = |dims: &Self, dimension: &BaseDimension| {
+            dims.get(dimension).copied().unwrap_or(Exponent::zero())
+        };
+        self.keys()
+            .chain(other.keys())
+            .all(|dimension| exponent(self, dimension) == exponent(other, dimension))
     }
 }
+
 impl BaseDimensions {
     pub fn none() -> Self {
         Self {
-- 
2.43.0


From 1b2e2783dea265e3287a757db35879fd09c91937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 02/19] fix: decode magnitudes below 2^-971 exactly instead of
 flushing them to zero

---
 crates/diman_lib/src/magnitude.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/diman_lib/src/magnitude.rs b/crates/diman_lib/src/magnitude.rs
index b31c8bb..84496f8 100644
--- a/crates/diman_lib/src/magnitude.rs
+++ b/crates/diman_lib/src/magnitude.rs
@@ -44,7 +44,13 @@ impl Magnitude {
     }
 
     pub fn into_f64(self) -> f64 {
-        self.sign as f64 * self.mantissa as f64 * 2.0f64.powi(self.exponent as i32)
+        // 2^exponent underflows to zero (or to a subnormal number) for small exponents even
+        // if the result is representable, so the scaling is done in two exact steps.
+        let half_exponent = self.exponent as i32 / 2;
+        self.sign as f64
+            * self.mantissa as f64
+            * 2.0f64.powi(half_exponent)
+            * 2.0f64.powi(self.exponent as i32 - half_exponent)
     }
 
     pub fn into_f32(self) -> f32 {
-- 
2.43.0


From 3a38a5878a08b697d4c71fa4070e2a9918695609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 03/19] fix: normalise ratios with negative denominators

---
 crates/diman_lib/src/ratio.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/diman_lib/src/ratio.rs b/crates/diman_lib/src/ratio.rs
index 7dd57b7..dbddb00 100644
--- a/crates/diman_lib/src/ratio.rs
+++ b/crates/diman_lib/src/ratio.rs
@@ -36,7 +36,13 @@ impl Ratio {
     }
 
     pub const fn new(num: i64, denom: i64) -> Self {
-        let gcd = gcd(num, denom);
+        // Dividing by a divisor with the sign of the denominator makes
+        // sure that the resulting denominator is always positive.
+        let gcd = if denom < 0 {
+            -gcd(num, denom)
+        } else {
+            gcd(num, denom)
+        };
         Self {
             num: num / gcd,
             denom: denom / gcd,
-- 
2.43.0


From 07c770d536f0acf35d6a7483c0b4e0ae1edbd021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 04/19] fix: reject rational exponents with a zero denominator

---
 crates/diman_unit_system/src/parse/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/diman_unit_system/src/parse/mod.rs b/crates/diman_unit_system/src/parse/mod.rs
index 4407f10..b0a967a 100644
--- a/crates/diman_unit_system/src/parse/mod.rs
+++ b/crates/diman_unit_system/src/parse/mod.rs
@@ -130,7 +130,14 @@ impl Parse for Exponent {
             let _: token::Paren = parenthesized!(content in input);
             let num: Int = content.parse()?;
             let _: DivisionToken = content.parse()?;
+            let denom_span = content.span();
             let denom: Int = content.parse()?;
+            if denom.int == 0 {
+                return Err(Error::new(
+                    denom_span,
+                    "The denominator of an exponent must not be zero.",
+                ));
+            }
             Ok(Self {
                 num,
                 denom: Some(denom),
-- 
2.43.0


From 4676b5dba4f8c906bdf92b7a7a0607cacb45035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 05/19] fix: report attributes on statements other than units
 instead of ignoring them

---
 crates/diman_unit_system/src/parse/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/diman_unit_system/src/parse/mod.rs b/crates/diman_unit_system/src/parse/mod.rs
index b0a967a..09dc58c 100644
--- a/crates/diman_unit_system/src/parse/mod.rs
+++ b/crates/diman_unit_system/src/parse/mod.rs
@@ -311,18 +311,22 @@ impl Parse for Entry {
         let attributes = Attributes::parse_all(input)?;
         let lookahead = input.lookahead1();
         if lookahead.peek(kw::quantity_type) {
+            attributes.check_none_left_over()?;
             let _: kw::quantity_type = input.parse()?;
             Ok(Self::QuantityType(input.parse()?))
         } else if lookahead.peek(kw::dimension_type) {
+            attributes.check_none_left_over()?;
             let _: kw::dimension_type = input.parse()?;
             Ok(Self::DimensionType(input.parse()?))
         } else if lookahead.peek(kw::dimension) {
+            attributes.check_none_left_over()?;
             Ok(Self::Dimension(input.parse()?))
         } else if lookahead.peek(kw::unit) {
             Ok(Self::Unit(UnitTemplate::parse_with_attributes(
                 input, attributes,
             )?))
         } else if lookahead.peek(kw::constant) {
+            attributes.check_none_left_over()?;
             Ok(Self::Constant(input.parse()?))
         } else {
             Err(lookahead.error())
-- 
2.43.0


From 8fdfda3f017963d3297d43d52eb258b61dd4517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 06/19] fix: reject text before the opening bracket when
 deserializing vectors

---
 crates/diman_unit_system/src/codegen/serde.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index 05cc3a9..0a31e37 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -237,6 +237,9 @@ impl Codegen {
                     let bracket_begin = vector_part
                         .find('(')
                         .ok_or_else(|| E::custom("No opening bracket in vector string"))?;
+                    if bracket_begin != 0 {
+                        return Err(E::custom("Unexpected characters before opening bracket in vector string"));
+                    }
                     let vector_part = vector_part[bracket_begin + 1..vector_part.len() - 1].to_string();
                     let vector_components = &vector_part.split_whitespace().collect::<Vec<_>>();
                     if vector_components.len() != #num_dims {
-- 
2.43.0


From fcf9a2aaf429e9dd959eb771026f9678205a1659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 07/19] fix: do not panic when formatting quantities of a base
 dimension without units

---
 crates/diman_unit_system/src/codegen/debug_trait.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/debug_trait.rs b/crates/diman_unit_system/src/codegen/debug_trait.rs
index 51214b7..7dfd076 100644
--- a/crates/diman_unit_system/src/codegen/debug_trait.rs
+++ b/crates/diman_unit_system/src/codegen/debug_trait.rs
@@ -76,14 +76,19 @@ impl Codegen {
 
     fn get_base_dimension_symbol(&self, base_dim: &BaseDimension) -> TokenStream {
         let dim = self.get_dimension_expr(&BaseDimensions::for_base_dimension(base_dim.clone()));
-        // We know that symbols exist for base dimensions, so we can unwrap here.
         let base_dim = &base_dim.0;
+        // Base units always have a symbol, but there might not be any unit for
+        // this base dimension, so fall back to the name of the dimension.
+        let name = base_dim.to_string();
+        let symbol = quote! {
+            units.get_first_unit_for_dimension(#dim).map_or(#name, |unit| unit.symbol)
+        };
         quote! {
             if D.#base_dim == Exponent::one() {
-                write!(f, " {}", units.get_first_unit_for_dimension(#dim).unwrap().symbol)?;
+                write!(f, " {}", #symbol)?;
             }
             else if D.#base_dim != Exponent::zero() {
-                write!(f, " {}^{}", units.get_first_unit_for_dimension(#dim).unwrap().symbol, D.#base_dim)?;
+                write!(f, " {}^{}", #symbol, D.#base_dim)?;
             }
         }
     }
-- 
2.43.0


From b3d78c2fcf0ce07b51803067cd28a0ca1b058e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 08/19] fix: give the quotient of a number and a unit the
 inverse dimension of the unit

---
 crates/diman_unit_system/src/codegen/unit_type.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index 3475966..2ca70d1 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -206,8 +206,11 @@ impl Codegen {
             }
 
             // X / Unit
-            impl<const D: Dimension, const F: Magnitude> Div<Unit<D, F>> for #name {
-                type Output = Quantity<#name, D>;
+            impl<const D: Dimension, const F: Magnitude> Div<Unit<D, F>> for #name
+            where
+                Quantity<(), { D.neg() }>:,
+            {
+                type Output = Quantity<#name, { D.neg() }>;
                 fn div(self, _: Unit<D, F>) -> Self::Output {
                     Quantity(self / #into)
                 }
@@ -238,8 +241,11 @@ impl Codegen {
             }
 
             // X / RuntimeUnit
-            impl<const D: Dimension> Div<RuntimeUnit<D>> for #name {
-                type Output = Quantity<#name, D>;
+            impl<const D: Dimension> Div<RuntimeUnit<D>> for #name
+            where
+                Quantity<(), { D.neg() }>:,
+            {
+                type Output = Quantity<#name, { D.neg() }>;
                 fn div(self, unit: RuntimeUnit<D>) -> Self::Output {
                     Quantity(self / unit.0.#conversion_to_float())
                 }
-- 
2.43.0


From ccef48d58ec8ed366b3665656aa0020e5639a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 09/19] fix: divide the unit by the quantity, not the quantity
 by the unit, in unit / quantity

---
 .../src/codegen/unit_type.rs                  | 50 +++++++++----------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index 2ca70d1..40ffb48 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -68,19 +68,6 @@ impl Codegen {
                 }
             }
 
-            // Unit / Quantity<S>
-            impl<const DL: Dimension, const DR: Dimension, const FL: Magnitude, S> Div<Quantity<S, DR>>
-                for Unit<DL, FL>
-            where
-                S: Div<Magnitude, Output = S>,
-                Quantity<(), { DL.sub(DR) }>:,
-            {
-                type Output = Quantity<S, { DL.sub(DR) }>;
-                fn div(self, x: Quantity<S, DR>) -> Self::Output {
-                    Quantity(x.value_unchecked() / FL)
-                }
-            }
-
             // Quantity<S> / Unit
             impl<const DL: Dimension, const DR: Dimension, const FR: Magnitude, S> Div<Unit<DR, FR>>
                 for Quantity<S, DL>
@@ -129,19 +116,6 @@ impl Codegen {
                 }
             }
 
-            // RuntimeUnit / Quantity<S>
-            impl<const DL: Dimension, const DR: Dimension, S> Div<Quantity<S, DR>>
-                for RuntimeUnit<DL>
-            where
-                S: Div<Magnitude, Output = S>,
-                Quantity<(), { DL.sub(DR) }>:,
-            {
-                type Output = Quantity<S, { DL.sub(DR) }>;
-                fn div(self, x: Quantity<S, DR>) -> Self::Output {
-                    Quantity(x.value_unchecked() / self.0)
-                }
-            }
-
             // Quantity<S> / RuntimeUnit
             impl<const DL: Dimension, const DR: Dimension, S> Div<RuntimeUnit<DR>>
                 for Quantity<S, DL>
@@ -232,6 +206,18 @@ impl Codegen {
                 }
             }
 
+            // Unit / Quantity<X>
+            impl<const DL: Dimension, const DR: Dimension, const F: Magnitude> Div<Quantity<#name, DR>>
+                for Unit<DL, F>
+            where
+                Quantity<(), { DL.sub(DR) }>:,
+            {
+                type Output = Quantity<#name, { DL.sub(DR) }>;
+                fn div(self, x: Quantity<#name, DR>) -> Self::Output {
+                    Quantity(#into / x.value_unchecked())
+                }
+            }
+
             // X * RuntimeUnit
             impl<const D: Dimension> Mul<RuntimeUnit<D>> for #name {
                 type Output = Quantity<#name, D>;
@@ -266,6 +252,18 @@ impl Codegen {
                     Quantity(self.0.#conversion_to_float() / f)
                 }
             }
+
+            // RuntimeUnit / Quantity<X>
+            impl<const DL: Dimension, const DR: Dimension> Div<Quantity<#name, DR>>
+                for RuntimeUnit<DL>
+            where
+                Quantity<(), { DL.sub(DR) }>:,
+            {
+                type Output = Quantity<#name, { DL.sub(DR) }>;
+                fn div(self, x: Quantity<#name, DR>) -> Self::Output {
+                    Quantity(self.0.#conversion_to_float() / x.value_unchecked())
+                }
+            }
         };
         res
     }
-- 
2.43.0


From d82e21afe618253f5840e9c40c531fbf9f0414bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 10/19] fix: support quantity and dimension types with names
 other than Quantity and Dimension

---
 crates/diman_unit_system/src/codegen/serde.rs          |  4 ++--
 crates/diman_unit_system/src/codegen/unit_type.rs      |  5 ++---
 .../src/codegen/units_and_constants.rs                 | 10 ++++++----
 crates/diman_unit_system/src/codegen/vector_methods.rs |  4 ++--
 4 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index 0a31e37..614e94d 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -179,7 +179,7 @@ impl Codegen {
                 }
             }
 
-            impl<const D: Dimension> serde::Serialize for #quantity_type<#float_type, D> {
+            impl<const D: #dimension_type> serde::Serialize for #quantity_type<#float_type, D> {
                 fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
                 where
                     S: serde::Serializer,
@@ -263,7 +263,7 @@ impl Codegen {
                 }
             }
 
-            impl<const D: Dimension> serde::Serialize for #quantity_type<#vector_type, D> {
+            impl<const D: #dimension_type> serde::Serialize for #quantity_type<#vector_type, D> {
                 fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
                 where
                     S: serde::Serializer,
diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index 40ffb48..c988c16 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -6,12 +6,11 @@ use super::Codegen;
 
 impl Codegen {
     pub fn gen_unit_type(&self) -> TokenStream {
-        let dimension_type = &self.defs.dimension_type;
         let trait_impls = self.gen_unit_trait_impls();
         let storage_type_impls = self.gen_unit_trait_impls_for_storage_types();
         quote! {
-            pub struct Unit<const D: #dimension_type, const F: Magnitude>;
-            pub struct RuntimeUnit<const D: #dimension_type>(Magnitude);
+            pub struct Unit<const D: Dimension, const F: Magnitude>;
+            pub struct RuntimeUnit<const D: Dimension>(Magnitude);
             #trait_impls
             #storage_type_impls
         }
diff --git a/crates/diman_unit_system/src/codegen/units_and_constants.rs b/crates/diman_unit_system/src/codegen/units_and_constants.rs
index f3c098e..84be135 100644
--- a/crates/diman_unit_system/src/codegen/units_and_constants.rs
+++ b/crates/diman_unit_system/src/codegen/units_and_constants.rs
@@ -31,12 +31,14 @@ impl Codegen {
             })
             .collect();
         let path_prefix = self.caller_type.path_prefix();
+        let dimension_type = &self.defs.dimension_type;
+        let quantity_type = &self.defs.quantity_type;
         quote! {
             pub use #path_prefix::magnitude::Magnitude;
             mod unit_type {
-                use super::Dimension;
+                use super::#dimension_type as Dimension;
                 use super::Magnitude;
-                use super::Quantity;
+                use super::#quantity_type as Quantity;
                 #def_unit_type
             }
             #[allow(unused)]
@@ -46,7 +48,7 @@ impl Codegen {
             pub mod units {
                 use super::Magnitude;
                 use super::Unit;
-                use super::Dimension;
+                use super::#dimension_type;
                 use super::Exponent;
                 #units
             }
@@ -54,7 +56,7 @@ impl Codegen {
             pub mod constants {
                 use super::Magnitude;
                 use super::Unit;
-                use super::Dimension;
+                use super::#dimension_type;
                 use super::Exponent;
                 #constants
             }
diff --git a/crates/diman_unit_system/src/codegen/vector_methods.rs b/crates/diman_unit_system/src/codegen/vector_methods.rs
index da73e96..b3986e7 100644
--- a/crates/diman_unit_system/src/codegen/vector_methods.rs
+++ b/crates/diman_unit_system/src/codegen/vector_methods.rs
@@ -136,9 +136,9 @@ impl Codegen {
                     #quantity_type::<#vector_type_name, { #dimension_type::none() }>(self.0.normalize())
                 }
 
-                pub fn dot<const DR: Dimension>(
+                pub fn dot<const DR: #dimension_type>(
                     self,
-                    rhs: Quantity<#vector_type_name, DR>,
+                    rhs: #quantity_type<#vector_type_name, DR>,
                 ) -> #quantity_type<#float_type, { D.add(DR) }> {
                     #quantity_type(self.0.dot(rhs.0))
                 }
-- 
2.43.0


From 00a63070c94bd0e21479634d7fc8d4872f7db2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 11/19] fix: refuse to express a quantity in a unit of a
 different dimension in value_in

---
 .../src/codegen/dimension_type.rs             | 18 +++++++++++
 .../src/codegen/quantity_type.rs              |  3 +-
 .../src/codegen/unit_type.rs                  | 32 +++++++++++++++++++
 3 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/crates/diman_unit_system/src/codegen/dimension_type.rs b/crates/diman_unit_system/src/codegen/dimension_type.rs
index d688fb1..36e1c92 100644
--- a/crates/diman_unit_system/src/codegen/dimension_type.rs
+++ b/crates/diman_unit_system/src/codegen/dimension_type.rs
@@ -60,6 +60,13 @@ impl Codegen {
         }
     }
 
+    fn equals_entry(&self, ident: &Ident) -> TokenStream {
+        quote! {
+            && self.#ident.num() == other.#ident.num()
+            && self.#ident.denom() == other.#ident.denom()
+        }
+    }
+
     fn sqrt_safety(&self, _ident: &Ident) -> TokenStream {
         quote! {}
     }
@@ -115,6 +122,12 @@ impl Codegen {
         }
     }
 
+    fn equals_entry(&self, ident: &Ident) -> TokenStream {
+        quote! {
+            && self.#ident == other.#ident
+        }
+    }
+
     fn sqrt_safety(&self, ident: &Ident) -> TokenStream {
         quote! {
             if self.#ident % 2 != 0 {
@@ -213,6 +226,7 @@ impl Codegen {
         let powi_gen = gen(&Self::mul_entry);
         let sqrt_gen = gen(&Self::sqrt_entry);
         let cbrt_gen = gen(&Self::cbrt_entry);
+        let equals_gen = gen(&Self::equals_entry);
         let sqrt_safety_gen = gen(&Self::sqrt_safety);
         let cbrt_safety_gen = gen(&Self::cbrt_safety);
 
@@ -224,6 +238,10 @@ impl Codegen {
                     }
                 }
 
+                pub const fn equals(self, other: Self) -> bool {
+                    true #equals_gen
+                }
+
                 pub const fn add(self, other: Self) -> Self {
                     Self {
                         #mul_gen
diff --git a/crates/diman_unit_system/src/codegen/quantity_type.rs b/crates/diman_unit_system/src/codegen/quantity_type.rs
index e7a8d8e..5429062 100644
--- a/crates/diman_unit_system/src/codegen/quantity_type.rs
+++ b/crates/diman_unit_system/src/codegen/quantity_type.rs
@@ -61,7 +61,8 @@ impl Codegen {
             where
                 S: core::ops::Div<Magnitude, Output = S> + core::fmt::Debug,
             {
-                pub fn value_in<A: Into<Magnitude>>(self, a: A) -> S {
+                pub fn value_in<A: unit_type::ConversionFactor>(self, a: A) -> S {
+                    let () = unit_type::SameDimension::<A, D>::CHECK;
                     self.value_unchecked() / a.into()
                 }
             }
diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index c988c16..a9d5059 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -11,6 +11,26 @@ impl Codegen {
         quote! {
             pub struct Unit<const D: Dimension, const F: Magnitude>;
             pub struct RuntimeUnit<const D: Dimension>(Magnitude);
+
+            /// Anything that quantities can be expressed in.
+            pub trait ConversionFactor: Into<Magnitude> {
+                /// The dimension of the quantities that can be expressed in
+                /// this unit. A bare magnitude does not carry a dimension.
+                const DIMENSION: Option<Dimension>;
+            }
+
+            pub struct SameDimension<A, const D: Dimension>(A);
+
+            impl<A: ConversionFactor, const D: Dimension> SameDimension<A, D> {
+                pub const CHECK: () = {
+                    if let Some(dimension) = A::DIMENSION {
+                        assert!(
+                            dimension.equals(D),
+                            "Cannot express quantity in a unit with a different dimension.",
+                        );
+                    }
+                };
+            }
             #trait_impls
             #storage_type_impls
         }
@@ -148,6 +168,18 @@ impl Codegen {
                     unit.0
                 }
             }
+
+            impl<const D: Dimension, const F: Magnitude> ConversionFactor for Unit<D, F> {
+                const DIMENSION: Option<Dimension> = Some(D);
+            }
+
+            impl<const D: Dimension> ConversionFactor for RuntimeUnit<D> {
+                const DIMENSION: Option<Dimension> = Some(D);
+            }
+
+            impl ConversionFactor for Magnitude {
+                const DIMENSION: Option<Dimension> = None;
+            }
         }
     }
 
-- 
2.43.0


From 3a4e513ca1f87fc650d1f7ce48ef9d98135bf52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 12/19] fix: read the rational unit exponents that
 serialization writes

---
 crates/diman_lib/src/ratio.rs                 |  8 ++++
 crates/diman_unit_system/src/codegen/serde.rs | 48 +++++++++++++++++--
 2 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/crates/diman_lib/src/ratio.rs b/crates/diman_lib/src/ratio.rs
index dbddb00..dc218fe 100644
--- a/crates/diman_lib/src/ratio.rs
+++ b/crates/diman_lib/src/ratio.rs
@@ -61,6 +61,14 @@ impl Ratio {
         Self::new(num, denom)
     }
 
+    pub fn checked_add(self, rhs: Self) -> Option<Self> {
+        let lhs_num = self.num.checked_mul(rhs.denom)?;
+        let rhs_num = rhs.num.checked_mul(self.denom)?;
+        let num = lhs_num.checked_add(rhs_num)?;
+        let denom = self.denom.checked_mul(rhs.denom)?;
+        Some(Self::new(num, denom))
+    }
+
     pub const fn sub(self, rhs: Self) -> Self {
         self.add(rhs.neg())
     }
diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index 614e94d..bf436d2 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -20,6 +20,17 @@ impl Codegen {
         let dimension_type = &self.defs.dimension_type;
         let quantity_type = &self.defs.quantity_type;
         let all_units_storage = self.runtime_unit_storage(self.defs.units.iter());
+        let read_exponent_str = self.serde_read_exponent_str();
+        let add_dimensions: TokenStream = self
+            .defs
+            .base_dimensions()
+            .map(|dim| quote! { #dim: total_dimension.#dim.checked_add(dimension.#dim).ok_or_else(overflow)?, })
+            .collect();
+        let raise_to_exponent: TokenStream = self
+            .defs
+            .base_dimensions()
+            .map(|dim| quote! { #dim: unit.dimension.#dim * exponent, })
+            .collect();
 
         quote! {
             use core::marker::PhantomData;
@@ -50,7 +61,10 @@ impl Codegen {
                 let mut total_factor = 1.0;
                 for unit in split {
                     let (dimension, factor) = read_single_unit_str(unit)?;
-                    total_dimension = total_dimension.add(dimension.clone());
+                    let overflow = || E::custom(format!("unit exponent out of range: {}", unit));
+                    total_dimension = #dimension_type {
+                        #add_dimensions
+                    };
                     total_factor *= factor;
                 }
                 Ok((total_dimension, total_factor))
@@ -67,22 +81,46 @@ impl Codegen {
                     }
                     (
                         split[0],
-                        split[1].parse::<i32>().map_err(|_| {
+                        read_exponent_str(split[1]).ok_or_else(|| {
                             E::custom(format!("unable to parse unit exponent: {}", split[1]))
                         })?,
                     )
                 } else {
-                    (unit_str, 1)
+                    (unit_str, Exponent::one())
                 };
                 #all_units_storage
                 let unit = units
                     .get_unit_by_symbol(unit)
                     .ok_or_else(|| E::custom(format!("unknown unit: {}", &unit)))?;
                 Ok((
-                    unit.dimension.clone().mul(exponent),
-                    Exponent::float_pow(Magnitude::from_f64(unit.magnitude), Exponent::from_int(exponent)).into_f64(),
+                    #dimension_type {
+                        #raise_to_exponent
+                    },
+                    Exponent::float_pow(Magnitude::from_f64(unit.magnitude), exponent).into_f64(),
                 ))
             }
+
+            #read_exponent_str
+        }
+    }
+
+    #[cfg(not(feature = "rational-dimensions"))]
+    fn serde_read_exponent_str(&self) -> TokenStream {
+        quote! {
+            fn read_exponent_str(exponent: &str) -> Option<Exponent> {
+                exponent.parse::<i32>().ok().map(Exponent::from_int)
+            }
+        }
+    }
+
+    #[cfg(feature = "rational-dimensions")]
+    fn serde_read_exponent_str(&self) -> TokenStream {
+        quote! {
+            fn read_exponent_str(exponent: &str) -> Option<Exponent> {
+                let (num, denom) = exponent.split_once('/').unwrap_or((exponent, "1"));
+                let (num, denom) = (num.parse::<i32>().ok()?, denom.parse::<i32>().ok()?);
+                (denom > 0).then(|| Exponent::new(num as i64, denom as i64))
+            }
         }
     }
 
-- 
2.43.0


From bd9870f9c4c497ce73ab2e61862ea6dbb2bc36f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 13/19] fix: support base dimensions whose snake case name is a
 keyword

---
 crates/diman_unit_system/src/types/base_dimension.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/diman_unit_system/src/types/base_dimension.rs b/crates/diman_unit_system/src/types/base_dimension.rs
index 925cf17..f4a7ed7 100644
--- a/crates/diman_unit_system/src/types/base_dimension.rs
+++ b/crates/diman_unit_system/src/types/base_dimension.rs
@@ -1,4 +1,5 @@
 use proc_macro2::Ident;
+use syn::ext::IdentExt;
 
 #[derive(PartialEq, Eq, Hash, Clone, PartialOrd, Ord)]
 pub struct BaseDimension(pub Ident);
@@ -20,7 +21,11 @@ fn str_to_snakecase(s: &str) -> String {
 }
 
 fn to_snakecase(dim: &Ident) -> Ident {
-    let snake_case = str_to_snakecase(&dim.to_string());
+    let mut snake_case = str_to_snakecase(&dim.unraw().to_string());
+    if syn::parse_str::<Ident>(&snake_case).is_err() {
+        // The result is a keyword, such as for `dimension Type`.
+        snake_case.push('_');
+    }
     Ident::new(&snake_case, dim.span())
 }
 
-- 
2.43.0


From 0799100247d82bcb26511f2e4965302d0ef1983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 14/19] fix: support raw identifiers as names and symbols of
 units

---
 crates/diman_unit_system/src/parse/attributes.rs | 11 +++++++----
 crates/diman_unit_system/src/types/mod.rs        |  7 +++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/diman_unit_system/src/parse/attributes.rs b/crates/diman_unit_system/src/parse/attributes.rs
index 0ebce2c..2172e5d 100644
--- a/crates/diman_unit_system/src/parse/attributes.rs
+++ b/crates/diman_unit_system/src/parse/attributes.rs
@@ -1,8 +1,10 @@
 use proc_macro2::Span;
 use syn::{
-    bracketed, parenthesized,
+    bracketed,
+    ext::IdentExt,
+    parenthesized,
     parse::{Parse, ParseBuffer, ParseStream},
-    Error, Result, Token,
+    Error, Ident, Result, Token,
 };
 
 use crate::{
@@ -164,8 +166,9 @@ impl FromAttribute for Symbol {
 
     fn from_attribute(attribute: &Attribute) -> Result<Self> {
         let inner = attribute.inner_or_err()?;
-        let name = inner.parse()?;
-        Ok(Symbol(name))
+        let name: Ident = inner.parse()?;
+        // Symbols are only used as text, so `r#in` stands for `in`.
+        Ok(Symbol(name.unraw()))
     }
 }
 
diff --git a/crates/diman_unit_system/src/types/mod.rs b/crates/diman_unit_system/src/types/mod.rs
index 7c68a27..88410a0 100644
--- a/crates/diman_unit_system/src/types/mod.rs
+++ b/crates/diman_unit_system/src/types/mod.rs
@@ -4,7 +4,7 @@ pub mod prefixes;
 
 use diman_lib::magnitude::Magnitude;
 use proc_macro2::Span;
-use syn::*;
+use syn::{ext::IdentExt, *};
 
 use self::{
     base_dimension::BaseDimension,
@@ -104,7 +104,10 @@ impl UnitTemplate {
         };
         match prefix {
             None => name,
-            Some(prefix) => Ident::new(&format!("{}{}", prefix.name(), name), name.span()),
+            Some(prefix) => Ident::new(
+                &format!("{}{}", prefix.name(), name.unraw()),
+                name.span(),
+            ),
         }
     }
 
-- 
2.43.0


From a90f04b0dfe63ef66b2a3001b336d9fdbfb08eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 15/19] fix: do not fill the other components with NaN in
 new_x, new_y and new_z

---
 .../diman_unit_system/src/codegen/vector_methods.rs  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/vector_methods.rs b/crates/diman_unit_system/src/codegen/vector_methods.rs
index b3986e7..8006784 100644
--- a/crates/diman_unit_system/src/codegen/vector_methods.rs
+++ b/crates/diman_unit_system/src/codegen/vector_methods.rs
@@ -24,7 +24,9 @@ impl Codegen {
         let new_z_impl = if *num_dims == 3 {
             quote! {
                 pub fn new_z(q: #quantity_type<#float_type, D>) -> #quantity_type<#vector_type_name, D> {
-                    q * <#vector_type_name>::Z
+                    let mut v = <#vector_type_name>::ZERO;
+                    v.z = q.value_unchecked();
+                    #quantity_type(v)
                 }
             }
         } else {
@@ -73,11 +75,15 @@ impl Codegen {
                 #new_impl
 
                 pub fn new_x(q: #quantity_type<#float_type, D>) -> #quantity_type<#vector_type_name, D> {
-                    q * <#vector_type_name>::X
+                    let mut v = <#vector_type_name>::ZERO;
+                    v.x = q.value_unchecked();
+                    #quantity_type(v)
                 }
 
                 pub fn new_y(q: #quantity_type<#float_type, D>) -> #quantity_type<#vector_type_name, D> {
-                    q * <#vector_type_name>::Y
+                    let mut v = <#vector_type_name>::ZERO;
+                    v.y = q.value_unchecked();
+                    #quantity_type(v)
                 }
 
                 #new_z_impl
-- 
2.43.0


From b76dffbcff1e241d742828155100928b74788ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 16/19] fix: report the missing feature when
 rational-dimensions is used without std and num-traits-libm

---
 crates/diman_unit_system/src/lib.rs | 10 ++++++++++
 src/lib.rs                          |  8 --------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/diman_unit_system/src/lib.rs b/crates/diman_unit_system/src/lib.rs
index 33b03c9..279afdc 100644
--- a/crates/diman_unit_system/src/lib.rs
+++ b/crates/diman_unit_system/src/lib.rs
@@ -1,5 +1,15 @@
 #![feature(proc_macro_diagnostic)]
 
+// This is checked here, since this crate is compiled before `diman` and would otherwise
+// fail with an error that does not mention the missing feature.
+#[cfg(all(
+    feature = "rational-dimensions",
+    not(any(feature = "std", feature = "num-traits-libm"))
+))]
+compile_error!(
+    "The \"rational-dimensions\" feature requires either \"std\" or \"num-traits-libm\""
+);
+
 mod codegen;
 mod dimension_math;
 mod parse;
diff --git a/src/lib.rs b/src/lib.rs
index ec2f1a5..d28a3a1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -406,14 +406,6 @@
 // imports via `crate::` and `diman::` in the proc macro.
 extern crate self as diman;
 
-#[cfg(all(
-    feature = "rational-dimensions",
-    not(any(feature = "std", feature = "num-traits-libm"))
-))]
-compile_error!(
-    "The \"rational-dimensions\" feature requires either \"std\" or \"num-traits-libm\""
-);
-
 #[cfg(feature = "si")]
 /// Defines the dimensions and units for the SI system.
 pub mod si;
-- 
2.43.0


From 729853db5e18759fbb032352cfd43188e70fc0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:04 +0000
Subject: [PATCH 17/19] fix: define the exponent type without importing i64,
 which glob imports make ambiguous

---
 crates/diman_unit_system/src/codegen/dimension_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/dimension_type.rs b/crates/diman_unit_system/src/codegen/dimension_type.rs
index 36e1c92..e1f538d 100644
--- a/crates/diman_unit_system/src/codegen/dimension_type.rs
+++ b/crates/diman_unit_system/src/codegen/dimension_type.rs
@@ -181,13 +181,13 @@ impl Codegen {
                 #[cfg(feature = "rational-dimensions")]
                 quote! { use #path_prefix::ratio::Ratio as Exponent; }
                 #[cfg(not(feature = "rational-dimensions"))]
-                quote! { use i64 as Exponent; }
+                quote! { type Exponent = i64; }
             }
             CallerType::Internal => {
                 #[cfg(feature = "rational-dimensions")]
                 quote! { use #path_prefix::::ratio::Ratio as Exponent; }
                 #[cfg(not(feature = "rational-dimensions"))]
-                quote! { use i64 as Exponent; }
+                quote! { type Exponent = i64; }
             }
         };
         let use_dimension_exponent_trait = match self.caller_type {
-- 
2.43.0


From 8cb5a0661fc4e2ff7f64139e88a43a44e893d2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:01 +0000
Subject: [PATCH 18/19] fix: refer to items by absolute paths and keep imports
 of the generated code out of the user's module

---
 .../src/codegen/debug_trait.rs                |  4 ++--
 .../src/codegen/float_methods.rs              |  4 ++--
 crates/diman_unit_system/src/codegen/hdf5.rs  | 14 ++++++------
 .../src/codegen/num_traits/mod.rs             |  4 ++--
 .../src/codegen/num_traits/operator_trait.rs  | 22 +++++++++----------
 .../src/codegen/quantity_type.rs              |  4 ++--
 crates/diman_unit_system/src/codegen/rand.rs  | 19 +++++++++-------
 crates/diman_unit_system/src/codegen/serde.rs | 21 ++++++++++++------
 .../src/codegen/storage_types.rs              |  4 ++--
 .../src/codegen/unit_type.rs                  |  2 +-
 10 files changed, 54 insertions(+), 44 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/debug_trait.rs b/crates/diman_unit_system/src/codegen/debug_trait.rs
index 7dfd076..8c14634 100644
--- a/crates/diman_unit_system/src/codegen/debug_trait.rs
+++ b/crates/diman_unit_system/src/codegen/debug_trait.rs
@@ -58,8 +58,8 @@ impl Codegen {
             .map(|base_dim| self.get_base_dimension_symbol(base_dim))
             .collect::<TokenStream>();
         quote! {
-            impl<const D: #dimension_type, S: core::fmt::Display> core::fmt::Debug for #quantity_type<S, D> {
-                fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+            impl<const D: #dimension_type, S: ::core::fmt::Display> ::core::fmt::Debug for #quantity_type<S, D> {
+                fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                     #units_storage
                     self.0.fmt(f)?;
                     if let Some(unit) = units.get_first_unit_for_dimension(D) {
diff --git a/crates/diman_unit_system/src/codegen/float_methods.rs b/crates/diman_unit_system/src/codegen/float_methods.rs
index 3bf7c63..f3a83b8 100644
--- a/crates/diman_unit_system/src/codegen/float_methods.rs
+++ b/crates/diman_unit_system/src/codegen/float_methods.rs
@@ -11,11 +11,11 @@ impl Codegen {
         };
         if cfg!(feature = "num-traits-libm") {
             quote! {
-                use #path_prefix::Float;
+                use #path_prefix::Float as _;
             }
         } else {
             quote! {
-                use #path_prefix::FloatCore;
+                use #path_prefix::FloatCore as _;
             }
         }
     }
diff --git a/crates/diman_unit_system/src/codegen/hdf5.rs b/crates/diman_unit_system/src/codegen/hdf5.rs
index 8cac75f..7ee63f3 100644
--- a/crates/diman_unit_system/src/codegen/hdf5.rs
+++ b/crates/diman_unit_system/src/codegen/hdf5.rs
@@ -23,9 +23,9 @@ impl Codegen {
         let dimension_type = &self.defs.dimension_type;
         let quantity_type = &self.defs.quantity_type;
         quote! {
-            unsafe impl<const D: #dimension_type> hdf5::H5Type for #quantity_type<#float_type_name, D> {
-                fn type_descriptor() -> hdf5::types::TypeDescriptor {
-                    hdf5::types::TypeDescriptor::Float(#hdf5_type)
+            unsafe impl<const D: #dimension_type> ::hdf5::H5Type for #quantity_type<#float_type_name, D> {
+                fn type_descriptor() -> ::hdf5::types::TypeDescriptor {
+                    ::hdf5::types::TypeDescriptor::Float(#hdf5_type)
                 }
             }
         }
@@ -45,10 +45,10 @@ impl Codegen {
         let dimension_type = &self.defs.dimension_type;
         let quantity_type = &self.defs.quantity_type;
         quote! {
-            unsafe impl<const D: #dimension_type> hdf5::H5Type for #quantity_type<#vector_type_name, D> {
-                fn type_descriptor() -> hdf5::types::TypeDescriptor {
-                    hdf5::types::TypeDescriptor::FixedArray(
-                        Box::new(hdf5::types::TypeDescriptor::Float(#hdf5_type)),
+            unsafe impl<const D: #dimension_type> ::hdf5::H5Type for #quantity_type<#vector_type_name, D> {
+                fn type_descriptor() -> ::hdf5::types::TypeDescriptor {
+                    ::hdf5::types::TypeDescriptor::FixedArray(
+                        Box::new(::hdf5::types::TypeDescriptor::Float(#hdf5_type)),
                         #num_dims,
                     )
                 }
diff --git a/crates/diman_unit_system/src/codegen/num_traits/mod.rs b/crates/diman_unit_system/src/codegen/num_traits/mod.rs
index 0212773..288a3c2 100644
--- a/crates/diman_unit_system/src/codegen/num_traits/mod.rs
+++ b/crates/diman_unit_system/src/codegen/num_traits/mod.rs
@@ -23,7 +23,7 @@ impl Codegen {
         let dimension_type = &self.defs.dimension_type;
         let quantity_type = &self.defs.quantity_type;
         quote! {
-            impl<const D: #dimension_type, S: Default + core::ops::AddAssign<S>> core::iter::Sum
+            impl<const D: #dimension_type, S: Default + ::core::ops::AddAssign<S>> ::core::iter::Sum
                 for #quantity_type<S, D>
             {
                 fn sum<I: Iterator<Item = Self>>(iter: I) -> Self {
@@ -42,7 +42,7 @@ impl Codegen {
         let dimension_type = &self.defs.dimension_type;
         let quantity_type = &self.defs.quantity_type;
         quote! {
-            impl<const D: #dimension_type, S: core::ops::Neg<Output=S>> core::ops::Neg for #quantity_type<S, D> {
+            impl<const D: #dimension_type, S: ::core::ops::Neg<Output=S>> ::core::ops::Neg for #quantity_type<S, D> {
                 type Output = Self;
 
                 fn neg(self) -> Self::Output {
diff --git a/crates/diman_unit_system/src/codegen/num_traits/operator_trait.rs b/crates/diman_unit_system/src/codegen/num_traits/operator_trait.rs
index cf333c8..edee6c7 100644
--- a/crates/diman_unit_system/src/codegen/num_traits/operator_trait.rs
+++ b/crates/diman_unit_system/src/codegen/num_traits/operator_trait.rs
@@ -22,16 +22,16 @@ use Trait::*;
 impl Trait {
     pub fn name(&self) -> TokenStream {
         match self {
-            Add => quote! { core::ops::Add },
-            Sub => quote! { core::ops::Sub },
-            Mul => quote! { core::ops::Mul },
-            Div => quote! { core::ops::Div },
-            AddAssign => quote! { core::ops::AddAssign },
-            SubAssign => quote! { core::ops::SubAssign },
-            MulAssign => quote! { core::ops::MulAssign },
-            DivAssign => quote! { core::ops::DivAssign },
-            PartialEq => quote! { core::cmp::PartialEq },
-            PartialOrd => quote! { core::cmp::PartialOrd },
+            Add => quote! { ::core::ops::Add },
+            Sub => quote! { ::core::ops::Sub },
+            Mul => quote! { ::core::ops::Mul },
+            Div => quote! { ::core::ops::Div },
+            AddAssign => quote! { ::core::ops::AddAssign },
+            SubAssign => quote! { ::core::ops::SubAssign },
+            MulAssign => quote! { ::core::ops::MulAssign },
+            DivAssign => quote! { ::core::ops::DivAssign },
+            PartialEq => quote! { ::core::cmp::PartialEq },
+            PartialOrd => quote! { ::core::cmp::PartialOrd },
         }
     }
 
@@ -57,7 +57,7 @@ impl Trait {
                 quote! { () }
             }
             PartialEq => quote! { bool },
-            PartialOrd => quote! { Option<core::cmp::Ordering> },
+            PartialOrd => quote! { Option<::core::cmp::Ordering> },
         }
     }
 
diff --git a/crates/diman_unit_system/src/codegen/quantity_type.rs b/crates/diman_unit_system/src/codegen/quantity_type.rs
index 5429062..1b4f032 100644
--- a/crates/diman_unit_system/src/codegen/quantity_type.rs
+++ b/crates/diman_unit_system/src/codegen/quantity_type.rs
@@ -59,7 +59,7 @@ impl Codegen {
 
             impl<const D: #dimension_type, S> #quantity_type<S, D>
             where
-                S: core::ops::Div<Magnitude, Output = S> + core::fmt::Debug,
+                S: ::core::ops::Div<Magnitude, Output = S> + ::core::fmt::Debug,
             {
                 pub fn value_in<A: unit_type::ConversionFactor>(self, a: A) -> S {
                     let () = unit_type::SameDimension::<A, D>::CHECK;
@@ -67,7 +67,7 @@ impl Codegen {
                 }
             }
 
-            impl<S> core::ops::Deref for #quantity_type<S, { #dimension_type::none() }> {
+            impl<S> ::core::ops::Deref for #quantity_type<S, { #dimension_type::none() }> {
                 type Target = S;
 
                 fn deref(&self) -> &Self::Target {
diff --git a/crates/diman_unit_system/src/codegen/rand.rs b/crates/diman_unit_system/src/codegen/rand.rs
index 832e5bf..322f8e0 100644
--- a/crates/diman_unit_system/src/codegen/rand.rs
+++ b/crates/diman_unit_system/src/codegen/rand.rs
@@ -14,16 +14,19 @@ impl Codegen {
             .collect();
         let dimension_type = &self.defs.dimension_type;
         quote! {
-            use ::rand::distributions::uniform::SampleBorrow;
-            use ::rand::distributions::uniform::SampleUniform;
-            use ::rand::distributions::uniform::UniformFloat;
-            use ::rand::distributions::uniform::UniformSampler;
-            use ::rand::prelude::*;
-
             #[derive(Clone, Copy, Debug)]
-            pub struct UniformQuantity<S, const D: #dimension_type>(UniformFloat<S>);
+            pub struct UniformQuantity<S, const D: #dimension_type>(::rand::distributions::uniform::UniformFloat<S>);
+
+            // Keep the imports out of the user's module.
+            const _: () = {
+                use ::rand::distributions::uniform::SampleBorrow;
+                use ::rand::distributions::uniform::SampleUniform;
+                use ::rand::distributions::uniform::UniformFloat;
+                use ::rand::distributions::uniform::UniformSampler;
+                use ::rand::prelude::*;
 
-            #float_impls
+                #float_impls
+            };
         }
     }
 
diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index bf436d2..56f0e6d 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -9,11 +9,17 @@ use super::Codegen;
 
 impl Codegen {
     pub fn gen_serde_impl(&self) -> TokenStream {
-        join([
+        let impls = join([
             self.serde_helpers_impl(),
             self.serde_floats_impl(),
             self.serde_vectors_impl(),
-        ])
+        ]);
+        // Keep the imports and helpers out of the user's module.
+        quote! {
+            const _: () = {
+                #impls
+            };
+        }
     }
 
     fn serde_helpers_impl(&self) -> TokenStream {
@@ -33,10 +39,11 @@ impl Codegen {
             .collect();
 
         quote! {
-            use core::marker::PhantomData;
-            use std::str::SplitWhitespace;
+            use ::core::marker::PhantomData;
+            use ::core::result::Result;
+            use ::std::str::SplitWhitespace;
 
-            use serde::de;
+            use ::serde::{self, de};
 
             #[derive(Default)]
             struct QuantityVisitor<S, const D: #dimension_type>(PhantomData<S>);
@@ -148,7 +155,7 @@ impl Codegen {
             impl<'de, const D: #dimension_type> serde::de::Visitor<'de> for QuantityVisitor<#float_type, D> {
                 type Value = #quantity_type<#float_type, D>;
 
-                fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
+                fn expecting(&self, formatter: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
                     formatter.write_str("a numerical value followed by a series of powers of units")
                 }
 
@@ -254,7 +261,7 @@ impl Codegen {
             impl<'de, const D: #dimension_type> serde::de::Visitor<'de> for QuantityVisitor<#vector_type, D> {
                 type Value = #quantity_type<#vector_type, D>;
 
-                fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
+                fn expecting(&self, formatter: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
                     let num_expected = match #num_dims {
                         2 => "two",
                         3 => "three",
diff --git a/crates/diman_unit_system/src/codegen/storage_types.rs b/crates/diman_unit_system/src/codegen/storage_types.rs
index 71daf80..4f79925 100644
--- a/crates/diman_unit_system/src/codegen/storage_types.rs
+++ b/crates/diman_unit_system/src/codegen/storage_types.rs
@@ -108,7 +108,7 @@ impl Codegen {
             #[cfg(feature = "mpi")]
             mpi_type: quote! { ::mpi::ffi::RSMPI_FLOAT },
             #[cfg(feature = "hdf5")]
-            hdf5_type: quote! { hdf5::types::FloatSize::U4 },
+            hdf5_type: quote! { ::hdf5::types::FloatSize::U4 },
         }
     }
 
@@ -121,7 +121,7 @@ impl Codegen {
             #[cfg(feature = "mpi")]
             mpi_type: quote! { ::mpi::ffi::RSMPI_DOUBLE },
             #[cfg(feature = "hdf5")]
-            hdf5_type: quote! { hdf5::types::FloatSize::U8 },
+            hdf5_type: quote! { ::hdf5::types::FloatSize::U8 },
         }
     }
 
diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index a9d5059..f0c2ff0 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -38,7 +38,7 @@ impl Codegen {
 
     fn gen_unit_trait_impls(&self) -> TokenStream {
         quote! {
-            use core::ops::{Mul, Div};
+            use ::core::ops::{Mul, Div};
             // Unit * Unit = RuntimeUnit
             impl<const DL: Dimension, const DR: Dimension, const FL: Magnitude, const FR: Magnitude>
                 Mul<Unit<DR, FR>> for Unit<DL, FL>
-- 
2.43.0


From f0bf669e8972f0329c001cf81f59fd75e28c3c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:13 +0000
Subject: [PATCH 19/19] fix: expand the same unit system to the same code and
 diagnostics every time

---
 crates/diman_unit_system/src/dimension_math.rs        | 8 ++++----
 crates/diman_unit_system/src/resolve/ident_storage.rs | 4 ++--
 crates/diman_unit_system/src/resolve/mod.rs           | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/diman_unit_system/src/dimension_math.rs b/crates/diman_unit_system/src/dimension_math.rs
index 9e3a710..26bb3eb 100644
--- a/crates/diman_unit_system/src/dimension_math.rs
+++ b/crates/diman_unit_system/src/dimension_math.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use diman_lib::{dimension_exponent::DimensionExponent, magnitude::Magnitude};
 use proc_macro2::Ident;
@@ -10,7 +10,7 @@ use crate::{
 
 #[derive(Clone)]
 pub struct BaseDimensions {
-    fields: HashMap<BaseDimension, Exponent>,
+    fields: BTreeMap<BaseDimension, Exponent>,
 }
 
 #[derive(Clone)]
@@ -34,12 +34,12 @@ impl PartialEq for BaseDimensions {
 impl BaseDimensions {
     pub fn none() -> Self {
         Self {
-            fields: HashMap::default(),
+            fields: BTreeMap::default(),
         }
     }
 
     pub fn for_base_dimension(base_dim: BaseDimension) -> Self {
-        let mut fields = HashMap::new();
+        let mut fields = BTreeMap::new();
         fields.insert(base_dim, Exponent::one());
         Self { fields }
     }
diff --git a/crates/diman_unit_system/src/resolve/ident_storage.rs b/crates/diman_unit_system/src/resolve/ident_storage.rs
index 5d7cdd3..0092612 100644
--- a/crates/diman_unit_system/src/resolve/ident_storage.rs
+++ b/crates/diman_unit_system/src/resolve/ident_storage.rs
@@ -231,10 +231,10 @@ impl IdentStorage {
     }
 
     pub(crate) fn filter_multiply_defined(&mut self) {
-        let num_definitions: HashMap<_, usize> =
+        let num_definitions: BTreeMap<_, usize> =
             self.unresolved
                 .iter()
-                .fold(HashMap::default(), |mut acc, item| {
+                .fold(BTreeMap::default(), |mut acc, item| {
                     *acc.entry(item.ident()).or_insert(0) += 1;
                     acc
                 });
diff --git a/crates/diman_unit_system/src/resolve/mod.rs b/crates/diman_unit_system/src/resolve/mod.rs
index ace7061..da52dd7 100644
--- a/crates/diman_unit_system/src/resolve/mod.rs
+++ b/crates/diman_unit_system/src/resolve/mod.rs
@@ -1,7 +1,7 @@
 mod error;
 mod ident_storage;
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use proc_macro2::Span;
 use syn::Ident;
@@ -109,7 +109,7 @@ fn check_for_base_units_without_symbol(units: &[Unit]) {
 }
 
 fn check_multiply_defined_symbols(units: &[UnitEntry]) {
-    let mut units_by_symbol: HashMap<&Ident, Vec<&Ident>> = HashMap::new();
+    let mut units_by_symbol: BTreeMap<&Ident, Vec<&Ident>> = BTreeMap::new();
     for unit in units {
         if let Some(ref symbol) = unit.symbol {
             units_by_symbol
@@ -141,7 +141,7 @@ pub fn get_base_dimensions(
 }
 
 pub fn check_invalid_base_units(units: &[UnitEntry], base_dimensions: &[&DimensionEntry]) {
-    let mut counter: HashMap<&Ident, usize> =
+    let mut counter: BTreeMap<&Ident, usize> =
         base_dimensions.iter().map(|dim| (&dim.name, 0)).collect();
     for unit in units {
         if unit.autogenerated_from.is_some() {
-- 
2.43.0

