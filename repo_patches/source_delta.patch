From cc37db67097d5a604cc2efaaaac9dc1d951166c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 01/43] fix: never bundle a struct that carries objects

A struct of at most 16 bytes holding an object was classified as a small
(bundleable) data parameter, so its object handle travelled inside the
bundle and was not conveyed as an object argument.
---
 idlc_mir/src/mir.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/idlc_mir/src/mir.rs b/idlc_mir/src/mir.rs
index c72aa59..b53d1e6 100644
--- a/idlc_mir/src/mir.rs
+++ b/idlc_mir/src/mir.rs
@@ -155,9 +155,12 @@ impl Struct {
     /// all input data parameters are sent as discrete arguments.
     pub const BUNDLED_SIZE_MAX: usize = 16;
 
+    ///
+    /// Structs which carry objects are never data parameters that can be bundled:
+    /// their objects travel separately, next to a discrete buffer.
     #[inline]
-    pub const fn new(inner: StructInner, size: usize) -> Self {
-        if size <= Self::BUNDLED_SIZE_MAX {
+    pub fn new(inner: StructInner, size: usize) -> Self {
+        if size <= Self::BUNDLED_SIZE_MAX && !inner.contains_interfaces() {
             Self::Small(inner)
         } else {
             Self::Big(inner)
-- 
2.43.0


From a7d183f2ee33bacf4b2be7ecb2a7476048b92d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 02/43] fix: convey every object of an object-carrying struct

StructInner::objects() ignores the element count of array fields and loses
the path of objects in struct types that are used by more than one field,
so the generated code moved the wrong (or no) handles out of the buffer.
---
 idlc_codegen/src/counts.rs                    |  4 +-
 .../src/interface/functions/implementation.rs | 26 +++-------
 .../src/interface/functions/invoke.rs         | 22 ++------
 .../src/interface/functions/implementation.rs | 26 +++-------
 .../src/interface/functions/invoke.rs         | 13 ++---
 .../src/interface/functions/implementation.rs | 12 ++---
 .../src/interface/functions/invoke.rs         | 12 ++---
 .../src/interface/functions/signature.rs      |  6 ---
 idlc_mir/src/mir.rs                           | 51 ++++++++++++++++++-
 9 files changed, 82 insertions(+), 90 deletions(-)

diff --git a/idlc_codegen/src/counts.rs b/idlc_codegen/src/counts.rs
index 75a25b4..09bf81a 100644
--- a/idlc_codegen/src/counts.rs
+++ b/idlc_codegen/src/counts.rs
@@ -42,7 +42,7 @@ impl super::functions::ParameterVisitor for Counter {
     #[inline]
     fn visit_input_big_struct(&mut self, _: &Ident, s: &StructInner) {
         self.input_buffers += 1;
-        self.input_objects += u8::try_from(s.objects().len()).unwrap();
+        self.input_objects += u8::try_from(s.object_count()).unwrap();
     }
 
     #[inline]
@@ -79,7 +79,7 @@ impl super::functions::ParameterVisitor for Counter {
     #[inline]
     fn visit_output_big_struct(&mut self, _: &Ident, s: &StructInner) {
         self.output_buffers += 1;
-        self.output_objects += u8::try_from(s.objects().len()).unwrap();
+        self.output_objects += u8::try_from(s.object_count()).unwrap();
     }
 
     #[inline]
diff --git a/idlc_codegen_c/src/interface/functions/implementation.rs b/idlc_codegen_c/src/interface/functions/implementation.rs
index 35eb654..aedf4a8 100644
--- a/idlc_codegen_c/src/interface/functions/implementation.rs
+++ b/idlc_codegen_c/src/interface/functions/implementation.rs
@@ -142,14 +142,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 r#"
             {{.bi = ({OBJECTBUFIN}) {{ &{ident}_cpy, sizeof({ty_ident}) }} }},"#
             ));
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
+            for (path, object_ty) in ty.object_paths() {
                 self.pre_call.push(format!(
                     r#"{ident}_cpy.{path} = Object_NULL;
     "#
@@ -157,9 +150,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 self.visit_input_object(
                     &idlc_mir::Ident {
                         ident: format!("{ident}_cpy.{}", path),
-                        span: object.0.last().unwrap().span,
+                        span: ident.span,
                     },
-                    object.1,
+                    object_ty,
                 );
             }
         } else {
@@ -275,14 +268,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             r#"
         {{.b = ({OBJECTBUF}) {{  {name}, sizeof({ty_ident}) }} }},"#
         ));
-        let objects = ty.objects();
-        for object in objects {
-            let path = object
-                .0
-                .iter()
-                .map(|ident| ident.to_string())
-                .collect::<Vec<String>>()
-                .join(".");
+        for (path, object_ty) in ty.object_paths() {
             self.initializations.push(format!(
                 r#"{name}->{path} = Object_NULL;
     "#
@@ -290,9 +276,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             self.visit_output_object(
                 &idlc_mir::Ident {
                     ident: format!("{name}->{}", path),
-                    span: object.0.last().unwrap().span,
+                    span: ident.span,
                 },
-                object.1,
+                object_ty,
             )
         }
     }
diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index 5db313c..bd3a9fd 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -163,14 +163,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 r#" \
                 {ty_ident} {name} = *({CONST} {ty_ident}*){ARGS}[{idx}].b.ptr;"#
             ));
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
+            for (path, _) in ty.object_paths() {
                 let idx = self.idx();
                 let field_ident = format!("{name}.{}", path);
                 self.pre.push(format!(
@@ -293,20 +286,13 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 r#" \
                 {ty_ident} *{name} = &(*({ty_ident}*){ARGS}[{idx}].b.ptr);"#
             ));
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
+            for (path, object_ty) in ty.object_paths() {
                 self.visit_output_object(
                     &idlc_mir::Ident {
                         ident: format!("{name}->{}", path),
-                        span: object.0.last().unwrap().span,
+                        span: ident.span,
                     },
-                    object.1,
+                    object_ty,
                 );
             }
         } else {
diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index c743003..e048c11 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -79,14 +79,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         "#
             ));
 
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
+            for (path, object_ty) in ty.object_paths() {
                 self.0.pre_call.push(format!(
                     r#"{ident}_cpy.{path} = Object_NULL;
     "#
@@ -94,9 +87,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 self.visit_input_object(
                     &idlc_mir::Ident {
                         ident: format!("{ident}_cpy.{}", path),
-                        span: object.0.last().unwrap().span,
+                        span: ident.span,
                     },
-                    object.1,
+                    object_ty,
                 );
             }
         } else {
@@ -200,14 +193,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         {{.b = ({OBJECTBUF}) {{  &{name}, sizeof({ty_ident}) }} }},"#
         ));
 
-        let objects = ty.objects();
-        for object in objects {
-            let path = object
-                .0
-                .iter()
-                .map(|ident| ident.to_string())
-                .collect::<Vec<String>>()
-                .join(".");
+        for (path, object_ty) in ty.object_paths() {
             self.0.initializations.push(format!(
                 r#"
     {name}.{path} = Object_NULL;"#
@@ -215,9 +201,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             self.visit_output_object(
                 &idlc_mir::Ident {
                     ident: format!("({name}.{})", path),
-                    span: object.0.last().unwrap().span,
+                    span: ident.span,
                 },
-                object.1,
+                object_ty,
             )
         }
     }
diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index e48a7b8..5d6dead 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -147,20 +147,13 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 {ty_ident} *{name} = &(*({ty_ident}*){ARGS}[{idx}].b.ptr);"#
             ));
 
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join("->");
+            for (path, object_ty) in ty.object_paths() {
                 self.0.visit_output_object(
                     &idlc_mir::Ident {
                         ident: format!("{name}->{}", path),
-                        span: object.0.last().unwrap().span,
+                        span: ident.span,
                     },
-                    object.1,
+                    object_ty,
                 );
             }
         } else {
diff --git a/idlc_codegen_rust/src/interface/functions/implementation.rs b/idlc_codegen_rust/src/interface/functions/implementation.rs
index 5d486aa..f85e757 100644
--- a/idlc_codegen_rust/src/interface/functions/implementation.rs
+++ b/idlc_codegen_rust/src/interface/functions/implementation.rs
@@ -135,7 +135,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let ty: &str = &namespaced_struct(r#struct);
         let escaped_ident = EscapedIdent::new(ident);
 
-        let objects = r#struct.objects();
+        let objects = r#struct.object_paths();
         if objects.is_empty() {
             self.args.push(format!(
                 r#"{ARG} {{
@@ -159,8 +159,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 }}
             }}"#
             ));
-            for (object, _) in objects {
-                let path = super::signature::idents_to_struct_path(&object);
+            for (path, _) in objects {
+                let path = format!(".{path}");
                 self.args.push(format!(
                     r#"{ARG} {{
                 o: std::mem::ManuallyDrop::new(unsafe {{
@@ -267,9 +267,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             }}"#
         ));
 
-        let objects = r#struct.objects();
-        for (object, _) in objects {
-            let path = super::signature::idents_to_struct_path(&object);
+        let objects = r#struct.object_paths();
+        for (path, _) in objects {
+            let path = format!(".{path}");
             let idx = self.args.len();
             self.post_call.push(format!(
                 r#"unsafe {{ std::ptr::write(
diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index 11ff7cf..f83be50 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -136,7 +136,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }}"#
         ));
 
-        let objects = r#struct.objects();
+        let objects = r#struct.object_paths();
         if objects.is_empty() {
             self.pre.push(format!(
                 "let {ident} = &*{ARGS}[{idx}].bi.ptr.cast::<{ty}>();"
@@ -145,8 +145,8 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             self.pre.push(format!(
                 "let mut {ident} = std::mem::ManuallyDrop::new(std::ptr::read({ARGS}[{idx}].bi.ptr.cast::<{ty}>()));"
             ));
-            for (object, _) in objects {
-                let path = super::signature::idents_to_struct_path(&object);
+            for (path, _) in objects {
+                let path = format!(".{path}");
                 let idx = self.idx();
                 self.pre.push(format!(
                     "std::ptr::write(&mut {ident}{path}, std::mem::transmute_copy(&{ARGS}[{idx}].o));"
@@ -196,7 +196,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }}"#
         ));
 
-        let objects = r#struct.objects();
+        let objects = r#struct.object_paths();
         if objects.is_empty() {
             self.post
                 .push(format!("*{ARGS}[{idx}].b.ptr.cast::<{ty}>() = {ident};\n"));
@@ -205,9 +205,9 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             self.post.push(format!(
                 "let mut {ident} = std::mem::ManuallyDrop::new({ident});"
             ));
-            for (object, _) in objects {
+            for (path, _) in objects {
                 let idx = self.idx();
-                let path = super::signature::idents_to_struct_path(&object);
+                let path = format!(".{path}");
                 self.post.push(format!("{ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute({ident}{path}.take()));"));
                 self.post.push(format!(
                     "std::ptr::write(std::ptr::addr_of_mut!({ident}{path}), std::mem::zeroed());"
diff --git a/idlc_codegen_rust/src/interface/functions/signature.rs b/idlc_codegen_rust/src/interface/functions/signature.rs
index f1c35d1..4499ec4 100644
--- a/idlc_codegen_rust/src/interface/functions/signature.rs
+++ b/idlc_codegen_rust/src/interface/functions/signature.rs
@@ -29,12 +29,6 @@ pub fn iter_to_string(iter: impl Iterator<Item = impl AsRef<str>>) -> String {
     acc
 }
 
-pub fn idents_to_struct_path(objects: &[&Ident]) -> String {
-    objects
-        .iter()
-        .fold(String::new(), |acc, x| acc + "." + x.as_ref())
-}
-
 impl Signature {
     pub fn new(function: &idlc_mir::Function) -> Self {
         let mut me = Self::default();
diff --git a/idlc_mir/src/mir.rs b/idlc_mir/src/mir.rs
index b53d1e6..fe9df1e 100644
--- a/idlc_mir/src/mir.rs
+++ b/idlc_mir/src/mir.rs
@@ -218,12 +218,59 @@ impl StructInner {
         objects
     }
 
+    /// Access path (relative to the struct) and type of every object held by the
+    /// struct, in the same breadth-first order as [`StructInner::objects`] with
+    /// each element of an array listed on its own.
+    pub fn object_paths(&self) -> Vec<(String, Option<&str>)> {
+        let mut queue = VecDeque::from([(String::new(), self)]);
+        let mut objects = Vec::new();
+
+        while let Some((prefix, node)) = queue.pop_front() {
+            for field in &node.fields {
+                let (ty, count) = &field.val;
+                let paths = (0..count.get()).map(|i| match count.get() {
+                    1 => format!("{prefix}{}", field.ident),
+                    _ => format!("{prefix}{}[{i}]", field.ident),
+                });
+                match ty {
+                    Type::Struct(s) if s.as_ref().contains_interfaces() => {
+                        queue.extend(paths.map(|path| (format!("{path}."), s.as_ref())));
+                    }
+                    Type::Interface(interface) => {
+                        objects.extend(paths.map(|path| (path, interface.as_deref())));
+                    }
+                    _ => {}
+                }
+            }
+        }
+
+        objects
+    }
+
+    /// Number of objects held by the struct, i.e. `object_paths().len()`.
+    pub fn object_count(&self) -> usize {
+        self.fields.iter().fold(0, |acc, field| {
+            let (ty, count) = &field.val;
+            let n = match ty {
+                Type::Interface(_) => 1,
+                Type::Struct(s) => s.as_ref().object_count(),
+                _ => 0,
+            };
+            n.saturating_mul(usize::from(count.get()))
+                .saturating_add(acc)
+        })
+    }
+
     pub fn is_primitive_struct(&self) -> bool {
-        self.objects().is_empty()
+        !self.contains_interfaces()
     }
 
     pub fn contains_interfaces(&self) -> bool {
-        !self.is_primitive_struct()
+        self.fields.iter().any(|field| match &field.val.0 {
+            Type::Interface(_) => true,
+            Type::Struct(s) => s.as_ref().contains_interfaces(),
+            _ => false,
+        })
     }
 }
 
-- 
2.43.0


From 3200c8a13f3b61a06f10b05dabc786db656ae7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 03/43] fix: lay out arguments as BI, BO, OI, OO sections

The order of arguments came from sorting the parameters with an ordering
that is not total and from placing embedded objects right behind their
struct's buffer, so sections were interleaved and the output bundle was not
the first output buffer for many parameter lists. Order the sections
explicitly, and visit the objects embedded in structs in the object sections.
---
 idlc_codegen/src/functions.rs                 | 91 ++++++++++++-------
 .../src/interface/functions/implementation.rs | 33 ++++---
 .../src/interface/functions/invoke.rs         | 42 +++++----
 .../src/interface/functions/implementation.rs | 33 ++++---
 .../src/interface/functions/invoke.rs         | 18 ++--
 .../src/interface/functions/implementation.rs | 30 ++++--
 .../src/interface/functions/invoke.rs         | 58 +++++++-----
 7 files changed, 182 insertions(+), 123 deletions(-)

diff --git a/idlc_codegen/src/functions.rs b/idlc_codegen/src/functions.rs
index 313261c..9d0ead2 100644
--- a/idlc_codegen/src/functions.rs
+++ b/idlc_codegen/src/functions.rs
@@ -18,6 +18,9 @@ pub trait ParameterVisitor {
     fn visit_input_bundled(&mut self, packed_primitives: &PackedPrimitives) {}
     fn visit_input_big_struct(&mut self, ident: &Ident, ty: &StructInner) {}
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {}
+    /// The objects embedded in a struct whose buffer was visited by
+    /// [`ParameterVisitor::visit_input_big_struct`].
+    fn visit_input_struct_objects(&mut self, ident: &Ident, ty: &StructInner) {}
     fn visit_input_object(&mut self, ident: &Ident, ty: Option<&str>) {}
     fn visit_input_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: Count) {}
 
@@ -30,6 +33,9 @@ pub trait ParameterVisitor {
     fn visit_output_bundled(&mut self, packed_primitives: &PackedPrimitives) {}
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &StructInner) {}
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {}
+    /// The objects embedded in a struct whose buffer was visited by
+    /// [`ParameterVisitor::visit_output_big_struct`].
+    fn visit_output_struct_objects(&mut self, ident: &Ident, ty: &StructInner) {}
     fn visit_output_object(&mut self, ident: &Ident, ty: Option<&str>) {}
     fn visit_output_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: Count) {}
 }
@@ -38,6 +44,8 @@ pub trait ParameterVisitor {
 enum Param<'a> {
     InputBundledPrimitives(&'a PackedPrimitives),
     OutputBundledPrimitives(&'a PackedPrimitives),
+    InputStructObjects(&'a Ident, &'a StructInner),
+    OutputStructObjects(&'a Ident, &'a StructInner),
     Params(&'a idlc_mir::Param),
 }
 
@@ -47,6 +55,8 @@ impl<'a> Param<'a> {
             match param {
                 Param::InputBundledPrimitives(b) => visitor.visit_input_bundled(b),
                 Param::OutputBundledPrimitives(b) => visitor.visit_output_bundled(b),
+                Param::InputStructObjects(i, s) => visitor.visit_input_struct_objects(i, s),
+                Param::OutputStructObjects(i, s) => visitor.visit_output_struct_objects(i, s),
                 Param::Params(p) => match p {
                     idlc_mir::Param::In { r#type, ident } => match r#type {
                         ParamTypeIn::Array(t, cnt) => match t {
@@ -100,45 +110,58 @@ impl<'a> Param<'a> {
     }
 
     fn new(params: &'a [idlc_mir::Param], packed_primitives: &'a PackedPrimitives) -> Vec<Self> {
-        let mut out = Vec::new();
+        let mut input_buffers = Vec::new();
+        let mut output_buffers = Vec::new();
+        let mut input_objects = Vec::new();
+        let mut output_objects = Vec::new();
+
         if packed_primitives.n_inputs() > 1 {
-            out.push(Self::InputBundledPrimitives(packed_primitives));
+            input_buffers.push(Self::InputBundledPrimitives(packed_primitives));
         }
-        out.extend(
-            params
-                .iter()
-                .filter(|&x| {
-                    !(packed_primitives.n_inputs() > 1
-                        && x.is_input()
-                        && (x.is_primitive_value() || x.is_small_struct_value()))
-                })
-                .filter(|x| {
-                    !(packed_primitives.n_outputs() > 1
-                        && x.is_output()
-                        && (x.is_primitive_value() || x.is_small_struct_value()))
-                })
-                .map(Param::Params),
-        );
-
         if packed_primitives.n_outputs() > 1 {
-            let me = idlc_mir::Param::Out {
-                r#type: idlc_mir::ParamTypeOut::Array(Type::Primitive(Primitive::Uint8), None),
-                ident: idlc_mir::Ident::new_without_span(String::new()),
-            };
-            let idx = out.iter().position(|x| {
-                if let Param::Params(p) = *x {
-                    p >= &me
-                } else {
-                    false
+            output_buffers.push(Self::OutputBundledPrimitives(packed_primitives));
+        }
+
+        // Objects embedded in structs come before the ones passed on their own.
+        for param in params {
+            if let (Type::Struct(s), false) = (param.r#type(), param.is_array()) {
+                if s.as_ref().contains_interfaces() {
+                    if param.is_input() {
+                        input_objects.push(Self::InputStructObjects(param.ident(), s.as_ref()));
+                    } else {
+                        output_objects.push(Self::OutputStructObjects(param.ident(), s.as_ref()));
+                    }
                 }
-            });
+            }
+        }
 
-            out.insert(
-                idx.unwrap_or(out.len()),
-                Param::OutputBundledPrimitives(packed_primitives),
-            );
+        for param in params {
+            let is_small = param.is_primitive_value() || param.is_small_struct_value();
+            let (n_small, buffers, objects) = if param.is_input() {
+                (
+                    packed_primitives.n_inputs(),
+                    &mut input_buffers,
+                    &mut input_objects,
+                )
+            } else {
+                (
+                    packed_primitives.n_outputs(),
+                    &mut output_buffers,
+                    &mut output_objects,
+                )
+            };
+            if matches!(param.r#type(), Type::Interface(_)) {
+                objects.push(Self::Params(param));
+            } else if !(is_small && n_small > 1) {
+                buffers.push(Self::Params(param));
+            }
         }
 
+        let mut out = input_buffers;
+        out.append(&mut output_buffers);
+        out.append(&mut input_objects);
+        out.append(&mut output_objects);
+
         out
     }
 }
@@ -150,9 +173,7 @@ pub fn visit_params<V: ParameterVisitor>(function: &Function, visitor: &mut V) {
 
 #[inline]
 pub fn visit_params_with_bundling<V: ParameterVisitor>(function: &Function, visitor: &mut V) {
-    let mut params = function.params.clone();
-    params.sort();
     let packed_primitives = super::serialization::PackedPrimitives::new(function);
-    let with_bundling = Param::new(&params, &packed_primitives);
+    let with_bundling = Param::new(&function.params, &packed_primitives);
     Param::visit(with_bundling.into_iter(), visitor);
 }
diff --git a/idlc_codegen_c/src/interface/functions/implementation.rs b/idlc_codegen_c/src/interface/functions/implementation.rs
index aedf4a8..f21d369 100644
--- a/idlc_codegen_c/src/interface/functions/implementation.rs
+++ b/idlc_codegen_c/src/interface/functions/implementation.rs
@@ -142,19 +142,6 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 r#"
             {{.bi = ({OBJECTBUFIN}) {{ &{ident}_cpy, sizeof({ty_ident}) }} }},"#
             ));
-            for (path, object_ty) in ty.object_paths() {
-                self.pre_call.push(format!(
-                    r#"{ident}_cpy.{path} = Object_NULL;
-    "#
-                ));
-                self.visit_input_object(
-                    &idlc_mir::Ident {
-                        ident: format!("{ident}_cpy.{}", path),
-                        span: ident.span,
-                    },
-                    object_ty,
-                );
-            }
         } else {
             self.args.push(format!(
                 r#"
@@ -163,6 +150,22 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         }
     }
 
+    fn visit_input_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        for (path, object_ty) in ty.object_paths() {
+            self.pre_call.push(format!(
+                r#"{ident}_cpy.{path} = Object_NULL;
+    "#
+            ));
+            self.visit_input_object(
+                &idlc_mir::Ident {
+                    ident: format!("{ident}_cpy.{}", path),
+                    span: ident.span,
+                },
+                object_ty,
+            );
+        }
+    }
+
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
         self.visit_input_big_struct(ident, ty);
     }
@@ -268,6 +271,10 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             r#"
         {{.b = ({OBJECTBUF}) {{  {name}, sizeof({ty_ident}) }} }},"#
         ));
+    }
+
+    fn visit_output_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        let name = format!("{}_ptr", ident);
         for (path, object_ty) in ty.object_paths() {
             self.initializations.push(format!(
                 r#"{name}->{path} = Object_NULL;
diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index bd3a9fd..7e4d7ba 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -163,14 +163,6 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 r#" \
                 {ty_ident} {name} = *({CONST} {ty_ident}*){ARGS}[{idx}].b.ptr;"#
             ));
-            for (path, _) in ty.object_paths() {
-                let idx = self.idx();
-                let field_ident = format!("{name}.{}", path);
-                self.pre.push(format!(
-                    r#" \
-                {field_ident} = {ARGS}[{idx}].o;"#
-                ));
-            }
         } else {
             self.pre.push(format!(
                 r#" \
@@ -178,6 +170,18 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             ));
         }
     }
+    fn visit_input_struct_objects(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
+        let name = format!("{}_ptr", ident);
+        for (path, _) in ty.object_paths() {
+            let idx = self.idx();
+            let field_ident = format!("{name}.{}", path);
+            self.pre.push(format!(
+                r#" \
+                {field_ident} = {ARGS}[{idx}].o;"#
+            ));
+        }
+    }
+
     fn visit_input_small_struct(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
         self.visit_input_big_struct(ident, ty);
     }
@@ -286,15 +290,6 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 r#" \
                 {ty_ident} *{name} = &(*({ty_ident}*){ARGS}[{idx}].b.ptr);"#
             ));
-            for (path, object_ty) in ty.object_paths() {
-                self.visit_output_object(
-                    &idlc_mir::Ident {
-                        ident: format!("{name}->{}", path),
-                        span: ident.span,
-                    },
-                    object_ty,
-                );
-            }
         } else {
             self.pre.push(format!(
                 r#" \
@@ -303,6 +298,19 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }
     }
 
+    fn visit_output_struct_objects(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
+        let name = format!("{}_ptr", ident);
+        for (path, object_ty) in ty.object_paths() {
+            self.visit_output_object(
+                &idlc_mir::Ident {
+                    ident: format!("{name}->{}", path),
+                    span: ident.span,
+                },
+                object_ty,
+            );
+        }
+    }
+
     fn visit_output_small_struct(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
         self.visit_output_big_struct(ident, ty);
     }
diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index e048c11..779fb0f 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -78,20 +78,6 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 r#"{{.bi = ({OBJECTBUFIN}) {{ &{ident}_cpy, sizeof({ty_ident}) }} }},
         "#
             ));
-
-            for (path, object_ty) in ty.object_paths() {
-                self.0.pre_call.push(format!(
-                    r#"{ident}_cpy.{path} = Object_NULL;
-    "#
-                ));
-                self.visit_input_object(
-                    &idlc_mir::Ident {
-                        ident: format!("{ident}_cpy.{}", path),
-                        span: ident.span,
-                    },
-                    object_ty,
-                );
-            }
         } else {
             self.0.args.push(format!(
                 r#"
@@ -100,6 +86,22 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         }
     }
 
+    fn visit_input_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        for (path, object_ty) in ty.object_paths() {
+            self.0.pre_call.push(format!(
+                r#"{ident}_cpy.{path} = Object_NULL;
+    "#
+            ));
+            self.visit_input_object(
+                &idlc_mir::Ident {
+                    ident: format!("{ident}_cpy.{}", path),
+                    span: ident.span,
+                },
+                object_ty,
+            );
+        }
+    }
+
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
         self.visit_input_big_struct(ident, ty);
     }
@@ -192,7 +194,10 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             r#"
         {{.b = ({OBJECTBUF}) {{  &{name}, sizeof({ty_ident}) }} }},"#
         ));
+    }
 
+    fn visit_output_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        let name = format!("{}_ref", ident);
         for (path, object_ty) in ty.object_paths() {
             self.0.initializations.push(format!(
                 r#"
diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index 5d6dead..b15e291 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -66,6 +66,10 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         self.0.visit_input_big_struct(ident, ty);
     }
 
+    fn visit_input_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        self.0.visit_input_struct_objects(ident, ty);
+    }
+
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
         self.visit_input_big_struct(ident, ty);
     }
@@ -146,16 +150,6 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 r#" \
                 {ty_ident} *{name} = &(*({ty_ident}*){ARGS}[{idx}].b.ptr);"#
             ));
-
-            for (path, object_ty) in ty.object_paths() {
-                self.0.visit_output_object(
-                    &idlc_mir::Ident {
-                        ident: format!("{name}->{}", path),
-                        span: ident.span,
-                    },
-                    object_ty,
-                );
-            }
         } else {
             self.0.pre.push(format!(
                 r#" \
@@ -164,6 +158,10 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }
     }
 
+    fn visit_output_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        self.0.visit_output_struct_objects(ident, ty);
+    }
+
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
         self.visit_output_big_struct(ident, ty);
     }
diff --git a/idlc_codegen_rust/src/interface/functions/implementation.rs b/idlc_codegen_rust/src/interface/functions/implementation.rs
index f85e757..7e443b7 100644
--- a/idlc_codegen_rust/src/interface/functions/implementation.rs
+++ b/idlc_codegen_rust/src/interface/functions/implementation.rs
@@ -135,8 +135,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let ty: &str = &namespaced_struct(r#struct);
         let escaped_ident = EscapedIdent::new(ident);
 
-        let objects = r#struct.object_paths();
-        if objects.is_empty() {
+        if !r#struct.contains_interfaces() {
             self.args.push(format!(
                 r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
@@ -159,10 +158,15 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 }}
             }}"#
             ));
-            for (path, _) in objects {
-                let path = format!(".{path}");
-                self.args.push(format!(
-                    r#"{ARG} {{
+        }
+    }
+
+    fn visit_input_struct_objects(&mut self, ident: &Ident, r#struct: &idlc_mir::StructInner) {
+        let escaped_ident = EscapedIdent::new(ident);
+        for (path, _) in r#struct.object_paths() {
+            let path = format!(".{path}");
+            self.args.push(format!(
+                r#"{ARG} {{
                 o: std::mem::ManuallyDrop::new(unsafe {{
                     let ptr = &mut (*{escaped_ident}.get()){path};
                     let obj = std::mem::ManuallyDrop::new(std::ptr::read(ptr));
@@ -171,8 +175,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                     std::mem::transmute_copy(&obj)
                 }})
             }}"#
-                ));
-            }
+            ));
         }
     }
 
@@ -266,9 +269,16 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 }}
             }}"#
         ));
+        if !r#struct.contains_interfaces() {
+            self.post_call.push(format!(
+                "let {escaped_ident} = unsafe {{ {escaped_ident}.assume_init() }};"
+            ));
+        }
+    }
 
-        let objects = r#struct.object_paths();
-        for (path, _) in objects {
+    fn visit_output_struct_objects(&mut self, ident: &Ident, r#struct: &idlc_mir::StructInner) {
+        let escaped_ident = EscapedIdent::new(ident);
+        for (path, _) in r#struct.object_paths() {
             let path = format!(".{path}");
             let idx = self.args.len();
             self.post_call.push(format!(
diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index f83be50..42e3940 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -1,6 +1,8 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+use std::collections::HashMap;
+
 use idlc_mir::{Ident, StructInner};
 
 use crate::interface::mink_primitives::GENERIC_ERROR;
@@ -19,6 +21,8 @@ pub struct Invoke {
     post: Vec<String>,
 
     idx: usize,
+    // Where the buffers of output structs with objects are.
+    struct_idx: HashMap<String, usize>,
 }
 
 impl Invoke {
@@ -136,8 +140,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }}"#
         ));
 
-        let objects = r#struct.object_paths();
-        if objects.is_empty() {
+        if !r#struct.contains_interfaces() {
             self.pre.push(format!(
                 "let {ident} = &*{ARGS}[{idx}].bi.ptr.cast::<{ty}>();"
             ));
@@ -145,16 +148,19 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             self.pre.push(format!(
                 "let mut {ident} = std::mem::ManuallyDrop::new(std::ptr::read({ARGS}[{idx}].bi.ptr.cast::<{ty}>()));"
             ));
-            for (path, _) in objects {
-                let path = format!(".{path}");
-                let idx = self.idx();
-                self.pre.push(format!(
-                    "std::ptr::write(&mut {ident}{path}, std::mem::transmute_copy(&{ARGS}[{idx}].o));"
-                ));
-            }
-            self.pre.push(format!("let {ident} = &{ident};"))
         }
     }
+    fn visit_input_struct_objects(&mut self, ident: &Ident, r#struct: &StructInner) {
+        let ident = EscapedIdent::new(ident);
+        for (path, _) in r#struct.object_paths() {
+            let path = format!(".{path}");
+            let idx = self.idx();
+            self.pre.push(format!(
+                "std::ptr::write(&mut {ident}{path}, std::mem::transmute_copy(&{ARGS}[{idx}].o));"
+            ));
+        }
+        self.pre.push(format!("let {ident} = &{ident};"))
+    }
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.visit_input_big_struct(ident, ty);
     }
@@ -196,27 +202,31 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }}"#
         ));
 
-        let objects = r#struct.object_paths();
-        if objects.is_empty() {
+        if !r#struct.contains_interfaces() {
             self.post
                 .push(format!("*{ARGS}[{idx}].b.ptr.cast::<{ty}>() = {ident};\n"));
         } else {
-            let struct_idx = idx;
+            self.struct_idx.insert(ident.to_string(), idx);
+        }
+    }
+    fn visit_output_struct_objects(&mut self, ident: &Ident, r#struct: &StructInner) {
+        let ident = EscapedIdent::new(ident);
+        let ty = &namespaced_struct(r#struct);
+        let struct_idx = self.struct_idx[&ident.to_string()];
+        self.post.push(format!(
+            "let mut {ident} = std::mem::ManuallyDrop::new({ident});"
+        ));
+        for (path, _) in r#struct.object_paths() {
+            let idx = self.idx();
+            let path = format!(".{path}");
+            self.post.push(format!("{ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute({ident}{path}.take()));"));
             self.post.push(format!(
-                "let mut {ident} = std::mem::ManuallyDrop::new({ident});"
+                "std::ptr::write(std::ptr::addr_of_mut!({ident}{path}), std::mem::zeroed());"
             ));
-            for (path, _) in objects {
-                let idx = self.idx();
-                let path = format!(".{path}");
-                self.post.push(format!("{ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute({ident}{path}.take()));"));
-                self.post.push(format!(
-                    "std::ptr::write(std::ptr::addr_of_mut!({ident}{path}), std::mem::zeroed());"
-                ));
-            }
-            self.post.push(format!(
+        }
+        self.post.push(format!(
                 "std::ptr::write({ARGS}[{struct_idx}].b.ptr.cast::<{ty}>(), std::mem::transmute_copy(&{ident}));"
             ));
-        }
     }
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.visit_output_big_struct(ident, ty);
-- 
2.43.0


From 6669fe195ec54790b5bcebdd1ef1151ef3639941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 04/43] fix: reject methods with more than 15 arguments of a
 class

The counts word has four bits per argument class; methods exceeding that were
emitted with a counts word that overflows into the neighbouring field.
---
 idlc_mir_passes/src/interface_verifier.rs | 53 +++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/idlc_mir_passes/src/interface_verifier.rs b/idlc_mir_passes/src/interface_verifier.rs
index 5f44669..3bf1c38 100644
--- a/idlc_mir_passes/src/interface_verifier.rs
+++ b/idlc_mir_passes/src/interface_verifier.rs
@@ -39,6 +39,7 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
                         InterfaceNode::Error(e) => consts.add_ident(&e.ident, from),
                         InterfaceNode::Function(f) => {
                             functions.add_ident(&f.ident, from);
+                            verify_counts(src, f);
 
                             let mut args_array_in = false;
                             let mut args_value_in = false;
@@ -152,6 +153,58 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
     }
 }
 
+/// Verifies that the method can be expressed by an `ObjectCounts`, which has room
+/// for at most [`MAX_ARGS`] arguments of each class.
+fn verify_counts(src: &idlc_mir::Interface, f: &idlc_mir::Function) {
+    const MAX_ARGS: usize = 15;
+
+    for is_input in [true, false] {
+        let mut has_small = false;
+        let mut buffers = 0usize;
+        let mut objects = 0usize;
+        for param in f.params.iter().filter(|p| p.is_input() == is_input) {
+            match param.r#type() {
+                Type::Interface(_) => {
+                    let count = match param {
+                        idlc_mir::Param::In {
+                            r#type: ParamTypeIn::Array(_, cnt),
+                            ..
+                        }
+                        | idlc_mir::Param::Out {
+                            r#type: ParamTypeOut::Array(_, cnt),
+                            ..
+                        } => cnt.map_or(0, |cnt| usize::from(cnt.get())),
+                        _ => 1,
+                    };
+                    objects = objects.saturating_add(count);
+                }
+                // Small parameters share a single buffer.
+                _ if param.is_primitive_value() || param.is_small_struct_value() => {
+                    has_small = true;
+                }
+                ty => {
+                    buffers += 1;
+                    if let (Type::Struct(s), false) = (ty, param.is_array()) {
+                        objects = objects.saturating_add(s.as_ref().object_count());
+                    }
+                }
+            }
+        }
+        buffers += usize::from(has_small);
+
+        for (count, class) in [(buffers, "buffers"), (objects, "objects")] {
+            if count > MAX_ARGS {
+                idlc_errors::unrecoverable!(
+                    "Interface `{}`, method `{}` has {count} {} {class}, at most {MAX_ARGS} are supported",
+                    src.ident,
+                    f.ident,
+                    if is_input { "input" } else { "output" },
+                );
+            }
+        }
+    }
+}
+
 struct CollisionDetector<'a> {
     src: &'a idlc_mir::Interface,
     inner: HashSet<&'a idlc_ast::Ident>,
-- 
2.43.0


From 42cd1cd7ac33e54172cb333e0975fd117196ae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 05/43] fix: verify interfaces in the library entry point

Language::generate skipped the interface verifier, so it accepted methods the
command-line driver rejects.
---
 idlc/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/idlc/src/lib.rs b/idlc/src/lib.rs
index f4d5160..f93be63 100644
--- a/idlc/src/lib.rs
+++ b/idlc/src/lib.rs
@@ -5,6 +5,7 @@ use idlc_ast_passes::{cycles, functions, idl_store::IDLStore, struct_verifier, C
 use idlc_codegen::{Descriptor, Generator};
 use idlc_errors::trace;
 use idlc_mir::mir;
+use idlc_mir_passes::{interface_verifier, MirCompilerPass};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum Language {
@@ -34,6 +35,9 @@ impl Language {
 
         let mir = mir::parse_to_mir(&ast, &mut idl_store);
 
+        trace!("Verifying interfaces");
+        interface_verifier::InterfaceVerifier::new(&mir).run_pass();
+
         match self {
             Self::Rust => Ok(idlc_codegen_rust::Generator::generate(&mir)),
         }
-- 
2.43.0


From a2e10597d6816780f533993e330ba87a47af2581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 06/43] fix: pack the C and C++ bundle structs

With a struct among the bundled parameters the compiler may insert padding
between members, so the bytes disagreed with the transmitted size and with
the packed bundle of the Rust backend.
---
 .../src/interface/functions/serialization.rs  |  4 +--
 .../src/interface/functions/signature.rs      | 30 ++++++++++++-------
 .../src/interface/functions/serialization.rs  |  4 +--
 .../src/interface/functions/signature.rs      | 30 ++++++++++++-------
 4 files changed, 44 insertions(+), 24 deletions(-)

diff --git a/idlc_codegen_c/src/interface/functions/serialization.rs b/idlc_codegen_c/src/interface/functions/serialization.rs
index 2cc462d..6be2631 100644
--- a/idlc_codegen_c/src/interface/functions/serialization.rs
+++ b/idlc_codegen_c/src/interface/functions/serialization.rs
@@ -190,12 +190,12 @@ impl<'a> PackedPrimitives<'a> {
         initialization.pop();
         let definition = if is_invoke {
             format!(
-                r#"struct {in_out} {{ \{fields}
+                r#"struct __attribute__((packed)) {in_out} {{ \{fields}
                 }}"#
             )
         } else {
             format!(
-                r#"struct {in_out} {{{fields}
+                r#"struct __attribute__((packed)) {in_out} {{{fields}
     }}"#
             )
         };
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 5247ad5..b9304e5 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -157,8 +157,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_inputs.contains(&ident.to_string())
             && self.bundled_inputs.len() > 1
         {
-            self.outputs
-                .push((format!("&i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+            self.outputs.push((
+                format!("({CONST} {}*)({CONST} void*)&i->m_{}", ty.ident, ident),
+                format!("{CONST} {}", ty.ident),
+            ));
         } else if ty.contains_interfaces() {
             self.outputs
                 .push((format!("&{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -174,8 +176,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_inputs.contains(&ident.to_string())
             && self.bundled_inputs.len() > 1
         {
-            self.outputs
-                .push((format!("&i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+            self.outputs.push((
+                format!("({CONST} {}*)({CONST} void*)&i->m_{}", ty.ident, ident),
+                format!("{CONST} {}", ty.ident),
+            ));
         } else if ty.contains_interfaces() {
             self.outputs
                 .push((format!("&{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -263,8 +267,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_outputs.contains(&ident.to_string())
             && self.bundled_outputs.len() > 1
         {
-            self.outputs
-                .push((format!("&o->m_{}", ident), change_primitive(ty).to_string()));
+            self.outputs.push((
+                format!("({}*)(void*)&o->m_{}", change_primitive(ty), ident),
+                change_primitive(ty).to_string(),
+            ));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), change_primitive(ty).to_string()));
@@ -278,8 +284,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_outputs.contains(&ident.to_string())
             && self.bundled_outputs.len() > 1
         {
-            self.outputs
-                .push((format!("&o->m_{}", ident), ty.ident.to_string()));
+            self.outputs.push((
+                format!("({}*)(void*)&o->m_{}", ty.ident, ident),
+                ty.ident.to_string(),
+            ));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), ty.ident.to_string()));
@@ -292,8 +300,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_outputs.contains(&ident.to_string())
             && self.bundled_outputs.len() > 1
         {
-            self.outputs
-                .push((format!("&o->m_{}", ident), ty.ident.to_string()));
+            self.outputs.push((
+                format!("({}*)(void*)&o->m_{}", ty.ident, ident),
+                ty.ident.to_string(),
+            ));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), ty.ident.to_string()));
diff --git a/idlc_codegen_cpp/src/interface/functions/serialization.rs b/idlc_codegen_cpp/src/interface/functions/serialization.rs
index c90d1e9..7fe4206 100644
--- a/idlc_codegen_cpp/src/interface/functions/serialization.rs
+++ b/idlc_codegen_cpp/src/interface/functions/serialization.rs
@@ -149,12 +149,12 @@ impl<'a> PackedPrimitives<'a> {
         initialization.pop();
         let definition = if is_invoke {
             format!(
-                r#"struct {in_out} {{ \{fields}
+                r#"struct __attribute__((packed)) {in_out} {{ \{fields}
                 }}"#
             )
         } else {
             format!(
-                r#"struct {in_out} {{{fields}
+                r#"struct __attribute__((packed)) {in_out} {{{fields}
     }}"#
             )
         };
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index 6d83820..8b39338 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -118,8 +118,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs
             .push((format!("&{}_ref", ident), format!("{CONST} {}", ty.ident)));
         if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
-            self.outputs
-                .push((format!("i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+            self.outputs.push((
+                format!("*({CONST} {}*)({CONST} void*)&i->m_{}", ty.ident, ident),
+                format!("{CONST} {}", ty.ident),
+            ));
         } else if ty.contains_interfaces() {
             self.outputs
                 .push((format!("{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -132,8 +134,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs
             .push((format!("&{}_ref", ident), format!("{CONST} {}", ty.ident)));
         if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
-            self.outputs
-                .push((format!("i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+            self.outputs.push((
+                format!("*({CONST} {}*)({CONST} void*)&i->m_{}", ty.ident, ident),
+                format!("{CONST} {}", ty.ident),
+            ));
         } else if ty.contains_interfaces() {
             self.outputs
                 .push((format!("{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -213,8 +217,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs
             .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
         if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
-            self.outputs
-                .push((format!("&o->m_{}", ident), change_primitive(ty).to_string()));
+            self.outputs.push((
+                format!("({}*)(void*)&o->m_{}", change_primitive(ty), ident),
+                change_primitive(ty).to_string(),
+            ));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), change_primitive(ty).to_string()));
@@ -225,8 +231,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs
             .push((format!("&{}_ref", ident), ty.ident.to_string()));
         if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
-            self.outputs
-                .push((format!("o->m_{}", ident), ty.ident.to_string()));
+            self.outputs.push((
+                format!("*({}*)(void*)&o->m_{}", ty.ident, ident),
+                ty.ident.to_string(),
+            ));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), ty.ident.to_string()));
@@ -236,8 +244,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs
             .push((format!("&{}_ref", ident), ty.ident.to_string()));
         if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
-            self.outputs
-                .push((format!("o->m_{}", ident), ty.ident.to_string()));
+            self.outputs.push((
+                format!("*({}*)(void*)&o->m_{}", ty.ident, ident),
+                ty.ident.to_string(),
+            ));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), ty.ident.to_string()));
-- 
2.43.0


From ed4cc8634a17d71de615cddad225c4d8ca8b8174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 07/43] fix: derive C++ interface classes from their direct
 base only

All ancestors were listed without a separator, which does not compile for
inheritance chains deeper than one level.
---
 idlc_codegen_cpp/src/interface/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/idlc_codegen_cpp/src/interface/mod.rs b/idlc_codegen_cpp/src/interface/mod.rs
index 419ffca..b836887 100644
--- a/idlc_codegen_cpp/src/interface/mod.rs
+++ b/idlc_codegen_cpp/src/interface/mod.rs
@@ -19,7 +19,6 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
 
     // need to have all of the base-class functions, error-codes and const values
     interface.iter().skip(1).for_each(|iface| {
-        base_iface.push_str(&format!("I{} ", &iface.ident.to_string()));
         iface.nodes.iter().for_each(|node| match node {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
@@ -108,8 +107,8 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
         }
     }
 
-    if !base_iface.is_empty() {
-        base_iface = format!(": public {base_iface}");
+    if let Some(base) = &interface.base {
+        base_iface = format!(": public I{} ", base.ident);
     }
 
     format!(
-- 
2.43.0


From cf7f17aaf4f1b373f58b3c8cb49eab485237660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:50 +0000
Subject: [PATCH 08/43] fix: pass untyped object arrays as ProxyBase in C++

The signatures used Object while stub and skeleton treat the elements as
proxies, so methods with an interface[n] parameter did not compile.
---
 idlc_codegen_cpp/src/interface/functions/invoke.rs    | 6 ++----
 idlc_codegen_cpp/src/interface/functions/signature.rs | 4 ++--
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index b15e291..5368799 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -40,7 +40,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let mut obj_args = String::new();
         for _ in 0..cnt.into() {
             let idx = self.0.idx();
-            obj_args.push_str(&format!(r"a[{idx}].o,"));
+            obj_args.push_str(&format!(r"{ty}(a[{idx}].o),"));
         }
         self.0.pre.push(format!(
             r#" \
@@ -106,11 +106,9 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         cnt: idlc_mir::Count,
     ) {
         let ty = ty.unwrap_or("ProxyBase").to_string();
-        let mut objs = String::new();
         let mut obj_assign = String::new();
         for i in 0..cnt.into() {
             let idx = self.0.idx();
-            objs.push_str("Object_NULL, ");
             obj_assign.push_str(&format!(
                 r#"
                 {ARGS}[{idx}].o=p_{ident}[{i}].extract();"#
@@ -118,7 +116,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident}[{cnt}] = {{ {objs} }};"#
+                {ty} p_{ident}[{cnt}];"#
         ));
         self.0.post.push(format!(
             r#" \
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index 8b39338..d6258e4 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -95,7 +95,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
     fn visit_input_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("(&{}_ref)[{cnt}]", ident);
-        let ty = format!("{CONST} {}", ty.unwrap_or("Object"));
+        let ty = format!("{CONST} {}", ty.unwrap_or("ProxyBase"));
         self.inputs.push((name, ty));
         self.input_obj_arg.push(format!("{}_len", ident));
         self.outputs
@@ -206,7 +206,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
     fn visit_output_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("(&{}_ref)[{cnt}]", ident);
-        let ty = ty.unwrap_or("Object").to_string();
+        let ty = ty.unwrap_or("ProxyBase").to_string();
         self.inputs.push((name, ty));
         self.output_obj_arg.push(format!("{}_len", ident));
         self.outputs
-- 
2.43.0


From f3401b7a1d7cbd8146cb198d497c0be1ce21d268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 09/43] fix: do not hand over output objects of a failed call
 in C

The C stub copied the output object slots to the caller whatever the status,
so the caller adopted objects of a call that failed.
---
 .../src/interface/functions/implementation.rs | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/idlc_codegen_c/src/interface/functions/implementation.rs b/idlc_codegen_c/src/interface/functions/implementation.rs
index f21d369..7bc3f30 100644
--- a/idlc_codegen_c/src/interface/functions/implementation.rs
+++ b/idlc_codegen_c/src/interface/functions/implementation.rs
@@ -15,6 +15,8 @@ pub struct Implementation {
     pub initializations: Vec<String>,
     pub pre_call: Vec<String>,
     pub post_call: Vec<String>,
+    // Output objects are only handed over by a call that succeeds.
+    post_call_objects: Vec<String>,
 
     idx: usize,
 }
@@ -26,6 +28,7 @@ impl Implementation {
             initializations: vec![],
             pre_call: vec![],
             post_call: vec![],
+            post_call_objects: vec![],
             idx: 0,
         };
 
@@ -47,7 +50,16 @@ impl Implementation {
     }
 
     pub fn post_call_assignments(&self) -> String {
-        self.post_call.concat()
+        let mut post_call = self.post_call.concat();
+        if !self.post_call_objects.is_empty() {
+            post_call += &format!(
+                r#"
+    if (Object_isOK(result)) {{{}
+    }}"#,
+                self.post_call_objects.concat()
+            );
+        }
+        post_call
     }
 }
 
@@ -219,9 +231,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         {.o = (Object) { NULL, NULL } },"#
                     .to_string(),
             );
-            self.post_call.push(format!(
+            self.post_call_objects.push(format!(
                 r#"
-    (*{ident}_ptr)[{i}] = a[{idx}].o;"#,
+        (*{ident}_ptr)[{i}] = a[{idx}].o;"#,
             ));
         }
     }
@@ -300,9 +312,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         if !ident.contains("->") {
             name = format!("*{name}");
         }
-        self.post_call.push(format!(
+        self.post_call_objects.push(format!(
             r#"
-    {name} = {ARGS}[{idx}].o;"#
+        {name} = {ARGS}[{idx}].o;"#
         ));
         self.args.push(
             r#"
-- 
2.43.0


From f7ff9ecf439ecb50123c7ec90368acd6ed4423a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:42 +0000
Subject: [PATCH 10/43] fix: align untyped object fields like typed ones

---
 idlc_ast/src/ast.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/idlc_ast/src/ast.rs b/idlc_ast/src/ast.rs
index f9f1ee8..36fe0cd 100644
--- a/idlc_ast/src/ast.rs
+++ b/idlc_ast/src/ast.rs
@@ -218,7 +218,8 @@ impl Type {
 
     #[must_use]
     pub const fn interface_align() -> usize {
-        Self::interface_size()
+        // An object handle is a pair of pointers.
+        Primitive::Uint64.alignment()
     }
 }
 
-- 
2.43.0


From b142a1778097e82a67f48058af9bbc825f9d4e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:16 +0000
Subject: [PATCH 11/43] fix: do not form a slice over absent arguments in Rust
 skeletons

Stubs pass a null argument array to methods without arguments; building a
slice from it is undefined behaviour and aborts in debug builds.
---
 idlc_codegen_rust/src/interface/functions/invoke.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index 42e3940..dd238f0 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -303,7 +303,11 @@ pub fn emit(
 
     let ident = &function.ident;
     let op_id = function.id;
-    let n_args = counts.total();
+    // Callers pass no argument array at all to methods without arguments.
+    let args = match counts.total() {
+        0 => String::new(),
+        n_args => format!("let args = std::slice::from_raw_parts_mut({ARGS}, {n_args});"),
+    };
     let counts = (
         counts.input_buffers,
         counts.output_buffers,
@@ -323,7 +327,7 @@ pub fn emit(
         if {COUNTS} != {PACK_COUNTS}{counts:?} {{
             return std::mem::transmute({GENERIC_ERROR}::GENERIC)
         }}
-        let args = std::slice::from_raw_parts_mut({ARGS}, {n_args});
+        {args}
 
         {pre}
 
-- 
2.43.0


From f8cdab6a69fb1a72c7f194e8bd509af205688b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:21 +0000
Subject: [PATCH 12/43] fix: verify every file of the compilation

---
 idlc/src/lib.rs                  | 20 ++++++++++-----
 idlc/src/main.rs                 | 42 +++++++++++++++++++-------------
 idlc_ast_passes/src/idl_store.rs |  7 ++++++
 3 files changed, 46 insertions(+), 23 deletions(-)

diff --git a/idlc/src/lib.rs b/idlc/src/lib.rs
index f93be63..63ee1a6 100644
--- a/idlc/src/lib.rs
+++ b/idlc/src/lib.rs
@@ -24,19 +24,27 @@ impl Language {
         trace!("Running `IncludeChecker` pass");
         idl_store.run_pass(&ast)?;
 
-        trace!("Running `FunctionDuplicateParam` pass");
-        functions::Functions::new().run_pass(&ast)?;
+        // Restrictions hold for every file which is part of the compilation.
+        let asts = idl_store.asts();
+        for ast in &asts {
+            trace!("Running `FunctionDuplicateParam` pass");
+            functions::Functions::new().run_pass(ast)?;
 
-        trace!("Running `CycleChecking` pass");
-        let struct_ordering = cycles::Cycles::new(&idl_store).run_pass(&ast)?;
+            trace!("Running `CycleChecking` pass");
+            let struct_ordering = cycles::Cycles::new(&idl_store).run_pass(ast)?;
 
-        trace!("Running `StructVerifier` pass");
-        struct_verifier::StructVerifier::run_pass(&idl_store, &struct_ordering)?;
+            trace!("Running `StructVerifier` pass");
+            struct_verifier::StructVerifier::run_pass(&idl_store, &struct_ordering)?;
+        }
 
         let mir = mir::parse_to_mir(&ast, &mut idl_store);
 
         trace!("Verifying interfaces");
         interface_verifier::InterfaceVerifier::new(&mir).run_pass();
+        for ast in &asts {
+            let mir = mir::parse_to_mir(ast, &mut idl_store);
+            interface_verifier::InterfaceVerifier::new(&mir).run_pass();
+        }
 
         match self {
             Self::Rust => Ok(idlc_codegen_rust::Generator::generate(&mir)),
diff --git a/idlc/src/main.rs b/idlc/src/main.rs
index 8b4bc25..62600a7 100644
--- a/idlc/src/main.rs
+++ b/idlc/src/main.rs
@@ -132,23 +132,27 @@ fn main() {
 
     timer::time!(check(idl_store.run_pass(&ast)), "`IncludeChecker` pass");
 
-    timer::time!(
-        check(idlc_ast_passes::functions::Functions::new().run_pass(&ast)),
-        "`FunctionDuplicateParam` pass"
-    );
-
-    let struct_ordering = timer::time!(
-        check(cycles::Cycles::new(&idl_store).run_pass(&ast)),
-        "`CycleCheck` pass"
-    );
-
-    timer::time!(
-        check(struct_verifier::StructVerifier::run_pass(
-            &idl_store,
-            &struct_ordering,
-        )),
-        "`StructVerifier` pass"
-    );
+    // Restrictions hold for every file which is part of the compilation.
+    let asts = idl_store.asts();
+    for ast in &asts {
+        timer::time!(
+            check(idlc_ast_passes::functions::Functions::new().run_pass(ast)),
+            "`FunctionDuplicateParam` pass"
+        );
+
+        let struct_ordering = timer::time!(
+            check(cycles::Cycles::new(&idl_store).run_pass(ast)),
+            "`CycleCheck` pass"
+        );
+
+        timer::time!(
+            check(struct_verifier::StructVerifier::run_pass(
+                &idl_store,
+                &struct_ordering,
+            )),
+            "`StructVerifier` pass"
+        );
+    }
 
     let mir = timer::time!(mir::parse_to_mir(&ast, &mut idl_store), "Mir");
     if dump == Some(Dumpable::Mir) {
@@ -158,6 +162,10 @@ fn main() {
 
     trace!("Verifying interfaces");
     interface_verifier::InterfaceVerifier::new(&mir).run_pass();
+    for ast in &asts {
+        let mir = mir::parse_to_mir(ast, &mut idl_store);
+        interface_verifier::InterfaceVerifier::new(&mir).run_pass();
+    }
 
     let marking_cnt = if args.marking.is_some() {
         std::fs::read_to_string(args.marking.unwrap()).expect("Failed to read marking file")
diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index ee7bb5f..7d5f82e 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -98,6 +98,13 @@ impl IDLStore {
         ))
     }
 
+    /// returns the AST of every file loaded so far, ordered by path
+    pub fn asts(&self) -> Vec<Rc<Ast>> {
+        let mut asts: Vec<_> = self.ast_store.borrow().values().map(Rc::clone).collect();
+        asts.sort_by(|a, b| a.tag.cmp(&b.tag));
+        asts
+    }
+
     fn change_to_canonical<'a>(&mut self, current: &'a Path, path: &'a Path) -> PathBuf {
         if self.ast_store.borrow().contains_key(path) {
             return path.to_path_buf();
-- 
2.43.0


From 8f4bc6991013eb4131998a755e9f1c1425dc9eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 13/43] fix: reject a second object array in the same direction

---
 idlc_mir_passes/src/interface_verifier.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/idlc_mir_passes/src/interface_verifier.rs b/idlc_mir_passes/src/interface_verifier.rs
index 3bf1c38..accae1c 100644
--- a/idlc_mir_passes/src/interface_verifier.rs
+++ b/idlc_mir_passes/src/interface_verifier.rs
@@ -66,6 +66,12 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
                                                     );
                                                 }
 
+                                                if args_array_in {
+                                                    idlc_errors::unrecoverable!(
+                                                        "Interface `{}`, method `{}` has more than one input object array",
+                                                        src.ident, f.ident
+                                                    );
+                                                }
                                                 args_array_in = true;
                                             };
                                             if let Type::Struct(_) | Type::Primitive(_) = t {
@@ -108,6 +114,12 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
                                                         iface_name, f.ident
                                                     );
                                                 }
+                                                if args_array_out {
+                                                    idlc_errors::unrecoverable!(
+                                                        "Interface `{}`, method `{}` has more than one output object array",
+                                                        src.ident, f.ident
+                                                    );
+                                                }
                                                 args_array_out = true;
                                             };
                                             if let Type::Struct(_) | Type::Primitive(_) = t {
-- 
2.43.0


From 316072f26452db0f17e86d4eeaa977419483f55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 14/43] fix: reject a constant named like a struct or interface

---
 idlc_ast_passes/src/idl_store.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index 7d5f82e..5d1d165 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -164,10 +164,12 @@ impl IDLStore {
         for node in &ast.nodes {
             assert_eq!(
                 match node.as_ref() {
-                    Node::Struct(s) => map.insert(
-                        Symbol::Struct(s.ident.to_string()),
-                        (Rc::clone(node), tag.clone())
-                    ),
+                    Node::Struct(s) => map
+                        .insert(
+                            Symbol::Struct(s.ident.to_string()),
+                            (Rc::clone(node), tag.clone())
+                        )
+                        .or_else(|| map.get(&Symbol::Const(s.ident.to_string())).cloned()),
                     Node::Interface(i) => {
                         map.insert(
                             Symbol::Struct(i.ident.to_string()),
@@ -182,12 +184,14 @@ impl IDLStore {
                                 (Rc::clone(node), tag.clone()),
                             )
                         })
+                        .or_else(|| map.get(&Symbol::Const(i.ident.to_string())).cloned())
                     }
                     Node::Const(c) => {
                         map.insert(
                             Symbol::Const(c.ident.to_string()),
                             (Rc::clone(node), tag.clone()),
                         )
+                        .or_else(|| map.get(&Symbol::Struct(c.ident.to_string())).cloned())
                     }
                     _ => None,
                 },
-- 
2.43.0


From ce94835def5bfbb19b31a8ec56d44e81198e5192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:29 +0000
Subject: [PATCH 15/43] fix: reject bounded arrays of buffers

---
 idlc_ast/src/pst.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index dc7d305..47d670c 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -182,6 +182,12 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
         let r#type = Type::from(ast_unwrap!(inner.next()));
         if let Type::Custom(r#type) = &r#type {
             if r#type == "buffer" {
+                if inner
+                    .next()
+                    .is_some_and(|array| array.as_rule() == Rule::bounded_array)
+                {
+                    idlc_errors::unrecoverable!("Bounded array of `buffer` isn't supported");
+                }
                 return Self::Value(Type::UntypedBuffer);
             }
         }
@@ -207,6 +213,12 @@ impl From<Pair<'_, Rule>> for ParamTypeOut {
         let r#type = Type::from(ast_unwrap!(inner.next()));
         if let Type::Custom(r#type) = &r#type {
             if r#type == "buffer" {
+                if inner
+                    .next()
+                    .is_some_and(|array| array.as_rule() == Rule::bounded_array)
+                {
+                    idlc_errors::unrecoverable!("Bounded array of `buffer` isn't supported");
+                }
                 return Self::Reference(Type::UntypedBuffer);
             }
         }
-- 
2.43.0


From 8af1b5151b06c887fe6c12e42c7421fd7d87db45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 16/43] fix: visit every struct and interface once in the cycle
 check

---
 idlc_ast_passes/src/cycles.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/idlc_ast_passes/src/cycles.rs b/idlc_ast_passes/src/cycles.rs
index 6a54bc7..a2fa5fc 100644
--- a/idlc_ast_passes/src/cycles.rs
+++ b/idlc_ast_passes/src/cycles.rs
@@ -1,7 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-use std::rc::Rc;
+use std::{collections::HashSet, rc::Rc};
 
 use idlc_ast::{
     ast::Type,
@@ -13,6 +13,8 @@ use crate::{graph::Graph, idl_store::IDLStore, CompilerPass};
 pub struct Cycles<'ast> {
     struct_graph: Graph<String>,
     iface_graph: Graph<String>,
+    visited_structs: HashSet<String>,
+    visited_ifaces: HashSet<String>,
     idl_store: &'ast IDLStore,
 }
 
@@ -22,11 +24,13 @@ impl<'ast> Cycles<'ast> {
             idl_store,
             struct_graph: Graph::new(),
             iface_graph: Graph::new(),
+            visited_structs: HashSet::new(),
+            visited_ifaces: HashSet::new(),
         }
     }
 
     pub fn visit_iface_recurse(&mut self, iface: Rc<idlc_ast::Interface>) {
-        if self.iface_graph.cycle().is_some() {
+        if !self.visited_ifaces.insert(iface.ident.to_string()) {
             return;
         }
 
@@ -39,7 +43,7 @@ impl<'ast> Cycles<'ast> {
     }
 
     pub fn visit_struct_recurse(&mut self, r#struct: Rc<idlc_ast::Struct>) {
-        if self.struct_graph.cycle().is_some() {
+        if !self.visited_structs.insert(r#struct.ident.to_string()) {
             return;
         }
 
-- 
2.43.0


From a56df5789a68efe514fe3ec8ce7755e1113b7ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 17/43] fix: compute struct sizes once when building the MIR

---
 idlc_mir/src/mir.rs | 59 +++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/idlc_mir/src/mir.rs b/idlc_mir/src/mir.rs
index fe9df1e..2223770 100644
--- a/idlc_mir/src/mir.rs
+++ b/idlc_mir/src/mir.rs
@@ -268,7 +268,7 @@ impl StructInner {
     pub fn contains_interfaces(&self) -> bool {
         self.fields.iter().any(|field| match &field.val.0 {
             Type::Interface(_) => true,
-            Type::Struct(s) => s.as_ref().contains_interfaces(),
+            Type::Struct(Struct::Big(s)) => s.contains_interfaces(),
             _ => false,
         })
     }
@@ -500,13 +500,13 @@ fn parse_struct(struct_: &idlc_ast::Struct, idl_store: &IDLStore) -> Rc<Node> {
     let mut fields = Vec::<StructField>::new();
     let mut size = 0;
     for field in &struct_.fields {
-        let val = (Type::new(&field.val.0, idl_store), field.val.1);
-        let field = StructField {
+        let (ty, ty_size) = Type::new_sized(&field.val.0, idl_store);
+        let count = field.val.1;
+        size += ty_size * usize::from(count.get());
+        fields.push(StructField {
             ident: field.ident.clone(),
-            val,
-        };
-        size += field.size();
-        fields.push(field);
+            val: (ty, count),
+        });
     }
 
     Rc::new(Node::Struct(Struct::new(
@@ -676,10 +676,18 @@ impl From<&idlc_ast::Const> for Const {
 
 impl Type {
     fn new(ty: &idlc_ast::Type, idl_store: &IDLStore) -> Self {
+        Self::new_sized(ty, idl_store).0
+    }
+
+    /// The type along with its size in bytes (`0` if it doesn't have one).
+    fn new_sized(ty: &idlc_ast::Type, idl_store: &IDLStore) -> (Self, usize) {
         match ty {
-            idlc_ast::Type::Primitive(primitive) => Self::Primitive(Primitive::from(primitive)),
-            idlc_ast::Type::UntypedBuffer => Self::UntypedBuffer,
-            idlc_ast::Type::Interface => Self::Interface(None),
+            idlc_ast::Type::Primitive(primitive) => {
+                let primitive = Primitive::from(primitive);
+                (Self::Primitive(primitive), primitive.size())
+            }
+            idlc_ast::Type::UntypedBuffer => (Self::UntypedBuffer, 0),
+            idlc_ast::Type::Interface => (Self::Interface(None), idlc_ast::Type::interface_size()),
             idlc_ast::Type::Custom(custom) => {
                 let ident = &custom.ident;
                 idl_store.iface_lookup(ident).map_or_else(
@@ -689,25 +697,28 @@ impl Type {
                             let mut size = 0;
                             for field in &r#struct.fields {
                                 let (ty, count) = &field.val;
-                                let field = StructField {
+                                let (ty, ty_size) = Self::new_sized(ty, idl_store);
+                                size += ty_size * usize::from(count.get());
+                                fields.push(StructField {
                                     ident: field.ident.clone(),
-                                    val: (Self::new(ty, idl_store), *count),
-                                };
-                                size += field.size();
-                                fields.push(field);
+                                    val: (ty, *count),
+                                });
                             }
-                            Self::Struct(Struct::new(
-                                StructInner {
-                                    ident: r#struct.ident.clone(),
-                                    fields,
-                                    origin: Some(path),
-                                },
-                                size,
-                            ))
+                            let inner = StructInner {
+                                ident: r#struct.ident.clone(),
+                                fields,
+                                origin: Some(path),
+                            };
+                            (Self::Struct(Struct::new(inner, size)), size)
                         }
                         None => panic!("Couldn't find any references of symbol {ident}"),
                     },
-                    |iface| Self::Interface(Some(iface.ident.to_string())),
+                    |iface| {
+                        (
+                            Self::Interface(Some(iface.ident.to_string())),
+                            idlc_ast::Type::interface_size(),
+                        )
+                    },
                 )
             }
         }
-- 
2.43.0


From 0f2f4eb906c4a0761e96bcd58c41a8f192b9b0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:39 +0000
Subject: [PATCH 18/43] fix: reject array lengths out of range in optimised
 builds

---
 idlc_ast/src/pst.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index 47d670c..0daefe8 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -175,6 +175,12 @@ impl From<Pair<'_, Rule>> for Type {
     }
 }
 
+fn parse_array_len(len: &str) -> Count {
+    len.parse().unwrap_or_else(|e| {
+        idlc_errors::unrecoverable!("'{len}' isn't a valid array length [{e}]")
+    })
+}
+
 impl From<Pair<'_, Rule>> for ParamTypeIn {
     fn from(rule: Pair<Rule>) -> Self {
         debug_assert_eq!(rule.as_rule(), Rule::param_type);
@@ -196,7 +202,7 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
                 Rule::bounded_array => {
-                    let array_len: Count = ast_unwrap!(pair.into_inner().as_str().parse());
+                    let array_len = parse_array_len(pair.into_inner().as_str());
                     Self::Array(r#type, Some(array_len))
                 }
                 _ => unreachable!(),
@@ -227,7 +233,7 @@ impl From<Pair<'_, Rule>> for ParamTypeOut {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
                 Rule::bounded_array => {
-                    let array_len: Count = ast_unwrap!(pair.into_inner().as_str().parse());
+                    let array_len = parse_array_len(pair.into_inner().as_str());
                     Self::Array(r#type, Some(array_len))
                 }
                 _ => unreachable!(),
@@ -276,8 +282,7 @@ fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
                 let next = ast_unwrap!(iter.next());
                 let (elem, ident) = match next.as_rule() {
                     Rule::bounded_array => {
-                        let array_len: Count =
-                            ast_unwrap!(next.clone().into_inner().as_str().parse());
+                        let array_len = parse_array_len(next.clone().into_inner().as_str());
                         let ident = ast_unwrap!(iter.next()).as_str().to_string();
                         (array_len, ident)
                     }
-- 
2.43.0


From 119582e4fb5c0bd7032b9751db152e14448d9c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 19/43] fix: reject structs whose size overflows

---
 idlc_ast_passes/src/struct_verifier.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/idlc_ast_passes/src/struct_verifier.rs b/idlc_ast_passes/src/struct_verifier.rs
index 8e13ec7..efa896d 100644
--- a/idlc_ast_passes/src/struct_verifier.rs
+++ b/idlc_ast_passes/src/struct_verifier.rs
@@ -36,16 +36,21 @@ pub enum Error {
         alignment: usize,
         size: usize,
     },
+    #[error("struct `{parent}` is too large")]
+    StructTooLarge { parent: String },
     #[error("struct `{parent}` contains duplicate field names: `{names:?}`")]
     StructFieldSameName { parent: Ident, names: Vec<Ident> },
 }
 
+/// Largest type all of the target languages are able to represent.
+const MAX_STRUCT_SIZE: usize = (1 << 61) - 1;
+
 impl StructVerifier {
     pub fn run_pass(idl_store: &IDLStore, toposort: &[String]) -> Result<(), Error> {
         let mut store: HashMap<String, (Size, Alignment)> = HashMap::new();
         for r#struct in toposort {
             let (node, _) = idl_store.struct_lookup(r#struct).unwrap();
-            let mut size = 0;
+            let mut size: usize = 0;
             let mut alignment = 0;
             let mut fields: HashSet<&Ident> = HashSet::new();
 
@@ -78,7 +83,13 @@ impl StructVerifier {
                     });
                 }
 
-                size += i_size * count;
+                size = i_size
+                    .checked_mul(count)
+                    .and_then(|i_size| i_size.checked_add(size))
+                    .filter(|size| *size <= MAX_STRUCT_SIZE)
+                    .ok_or_else(|| Error::StructTooLarge {
+                        parent: r#struct.to_string(),
+                    })?;
                 alignment = alignment.max(i_alignment);
             }
 
-- 
2.43.0


From 81c31c0194d34d6e63564c1af6b2593637f3d63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:11 +0000
Subject: [PATCH 20/43] fix: fail when dumping the PST of unparsable input

---
 idlc_ast/src/pst.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index 0daefe8..7ae32b7 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -395,7 +395,7 @@ pub fn dump<P: AsRef<std::path::Path>>(path: P) {
     let duration = now.elapsed();
     match pst {
         Ok(pst) => println!("{pst:#?}"),
-        Err(e) => eprintln!("Parsing failed:\n{e}\n"),
+        Err(e) => idlc_errors::unrecoverable!("Parsing failed:\n{e}\n"),
     }
     eprintln!("'dump_pst' completed in {duration:?}");
 }
-- 
2.43.0


From 04ad0a3a4d952a0aa4767039d4c679408191bd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:30 +0000
Subject: [PATCH 21/43] fix: load every included file once

---
 idlc_ast_passes/src/idl_store.rs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index 5d1d165..44530ee 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -3,13 +3,13 @@
 
 //! Implementation of include cycle detection and symbol lookup
 //!
-use crate::graph::{Cycle, Graph};
+use crate::graph::Graph;
 
 use crate::CompilerPass;
 
 use std::{
     cell::RefCell,
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     path::{Path, PathBuf},
     rc::Rc,
 };
@@ -26,7 +26,7 @@ pub struct IDLStore {
     ast_store: RefCell<HashMap<PathBuf, Rc<Ast>>>,
     symbols: RefCell<HashMap<Symbol, (Rc<Node>, PathBuf)>>,
     current: Option<PathBuf>,
-    cycle: Option<Cycle<String>>,
+    visited: HashSet<PathBuf>,
     graph: Graph<String>,
     include_paths: Vec<PathBuf>,
     allow_undefined_behavior: bool,
@@ -51,13 +51,10 @@ impl Visitor<'_> for IDLStore {
             current.clone().display().to_string(),
             cano_path.display().to_string(),
         );
-        self.cycle = self.graph.cycle();
-        if self.cycle.is_some() {
-            return;
+        if self.visited.insert(cano_path.clone()) {
+            let inc_ast = self.get_or_insert(&cano_path);
+            walk_all(self, &inc_ast);
         }
-
-        let inc_ast = self.get_or_insert(&cano_path);
-        walk_all(self, &inc_ast);
         self.current = Some(current);
     }
 }
@@ -78,7 +75,7 @@ impl IDLStore {
             ast_store: RefCell::new(HashMap::new()),
             symbols: RefCell::new(HashMap::new()),
             current: None,
-            cycle: None,
+            visited: HashSet::new(),
             graph: Graph::new(),
             include_paths: include_paths.to_vec(),
             allow_undefined_behavior,
@@ -119,7 +116,7 @@ impl IDLStore {
             return canonicalized;
         }
 
-        let mut possibilities = std::collections::HashSet::new();
+        let mut possibilities = HashSet::new();
         let mut first: Option<PathBuf> = None;
 
         for include_path in &self.include_paths {
@@ -151,11 +148,9 @@ impl IDLStore {
 
     fn check_includes(&mut self, ast: &'_ idlc_ast::Ast) -> Result<Vec<String>, crate::Error> {
         walk_all(self, ast);
-        if let Some(cycle) = self.cycle.take() {
-            return Err(crate::Error::CyclicalInclude(cycle));
-        }
-
-        Ok(self.graph.toposort().unwrap())
+        self.graph
+            .toposort()
+            .map_err(crate::Error::CyclicalInclude)
     }
 
     #[inline]
-- 
2.43.0


From 89e3a5269230a3b6552435790e59463f2df7cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:40 +0000
Subject: [PATCH 22/43] fix: compile on a thread with a stack fit for deeply
 nested declarations

---
 idlc/src/main.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/idlc/src/main.rs b/idlc/src/main.rs
index 62600a7..3162bbb 100644
--- a/idlc/src/main.rs
+++ b/idlc/src/main.rs
@@ -103,7 +103,21 @@ enum Dumpable {
     Mir,
 }
 
+/// Declarations can be nested arbitrarily deep, passes recurse into them.
+const STACK_SIZE: usize = 256 << 20;
+
 fn main() {
+    let compiler = std::thread::Builder::new()
+        .name("idlc".to_string())
+        .stack_size(STACK_SIZE)
+        .spawn(compile)
+        .expect("Failed to start the compiler.");
+    if compiler.join().is_err() {
+        std::process::exit(101);
+    }
+}
+
+fn compile() {
     use clap::Parser as ClapParser;
     idlc_errors::init();
     let args = Cli::parse();
-- 
2.43.0


From b1d533a0032b1a4dbc02407d440be9be72a045b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:53 +0000
Subject: [PATCH 23/43] fix: search the directory of the input file in the
 library entry

---
 idlc/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/idlc/src/lib.rs b/idlc/src/lib.rs
index 63ee1a6..89ba322 100644
--- a/idlc/src/lib.rs
+++ b/idlc/src/lib.rs
@@ -18,8 +18,12 @@ impl Language {
         include_paths: &[std::path::PathBuf],
         input_file: &std::path::Path,
     ) -> Result<Descriptor, Box<dyn std::error::Error>> {
-        let mut idl_store = IDLStore::with_includes(include_paths, false);
-        let ast = idl_store.get_or_insert(input_file);
+        let input_file = input_file.canonicalize()?;
+        let mut include_paths = include_paths.to_vec();
+        include_paths.extend(input_file.parent().map(std::path::Path::to_path_buf));
+
+        let mut idl_store = IDLStore::with_includes(&include_paths, false);
+        let ast = idl_store.get_or_insert(&input_file);
 
         trace!("Running `IncludeChecker` pass");
         idl_store.run_pass(&ast)?;
-- 
2.43.0


From fe3c94dc284ada4ff8e2def1254fc28d2777e93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 24/43] fix: ignore comments between the tokens of a
 declaration

---
 idlc_ast/src/pst.rs | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index 7ae32b7..14c8312 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -54,6 +54,12 @@ macro_rules! ast_unwrap {
     }};
 }
 
+/// Children of a rule, comments are allowed between any two of them.
+fn tokens(pair: Pair<'_, Rule>) -> impl Iterator<Item = Pair<'_, Rule>> {
+    pair.into_inner()
+        .filter(|token| token.as_rule() != Rule::COMMENT)
+}
+
 impl From<pest::Span<'_>> for Span {
     fn from(value: pest::Span) -> Self {
         Self {
@@ -84,11 +90,11 @@ impl InterfaceNode {
         match pair.as_rule() {
             Rule::error => Self::Error(Ident {
                 span: pair.as_span().into(),
-                ident: pair.into_inner().nth(1).unwrap().as_str().to_string(),
+                ident: tokens(pair).nth(1).unwrap().as_str().to_string(),
             }),
             Rule::r#const => Self::Const(parse_const(pair, allow_undefined_behavior)),
             Rule::function => {
-                let mut inner = pair.into_inner();
+                let mut inner = tokens(pair);
                 let mut attributes = Vec::new();
                 let function_keyword = ast_unwrap!(inner.next());
                 for attribute in function_keyword.into_inner() {
@@ -139,7 +145,7 @@ impl<'a> From<Pair<'a, Rule>> for FunctionAttribute {
 
 impl<'a> From<Pair<'a, Rule>> for Param {
     fn from(value: Pair<'a, Rule>) -> Self {
-        let mut params = value.into_inner();
+        let mut params = tokens(value);
         let mutability = ast_unwrap!(params.next()).as_str();
         let r#type = ast_unwrap!(params.next());
         let ident = ast_unwrap!(params.next()).into();
@@ -175,7 +181,8 @@ impl From<Pair<'_, Rule>> for Type {
     }
 }
 
-fn parse_array_len(len: &str) -> Count {
+fn parse_array_len(array: Pair<Rule>) -> Count {
+    let len = ast_unwrap!(tokens(array).next()).as_str();
     len.parse().unwrap_or_else(|e| {
         idlc_errors::unrecoverable!("'{len}' isn't a valid array length [{e}]")
     })
@@ -184,7 +191,7 @@ fn parse_array_len(len: &str) -> Count {
 impl From<Pair<'_, Rule>> for ParamTypeIn {
     fn from(rule: Pair<Rule>) -> Self {
         debug_assert_eq!(rule.as_rule(), Rule::param_type);
-        let mut inner = rule.into_inner();
+        let mut inner = tokens(rule);
         let r#type = Type::from(ast_unwrap!(inner.next()));
         if let Type::Custom(r#type) = &r#type {
             if r#type == "buffer" {
@@ -202,7 +209,7 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
                 Rule::bounded_array => {
-                    let array_len = parse_array_len(pair.into_inner().as_str());
+                    let array_len = parse_array_len(pair);
                     Self::Array(r#type, Some(array_len))
                 }
                 _ => unreachable!(),
@@ -215,7 +222,7 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
 impl From<Pair<'_, Rule>> for ParamTypeOut {
     fn from(rule: Pair<Rule>) -> Self {
         debug_assert_eq!(rule.as_rule(), Rule::param_type);
-        let mut inner = rule.into_inner();
+        let mut inner = tokens(rule);
         let r#type = Type::from(ast_unwrap!(inner.next()));
         if let Type::Custom(r#type) = &r#type {
             if r#type == "buffer" {
@@ -233,7 +240,7 @@ impl From<Pair<'_, Rule>> for ParamTypeOut {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
                 Rule::bounded_array => {
-                    let array_len = parse_array_len(pair.into_inner().as_str());
+                    let array_len = parse_array_len(pair);
                     Self::Array(r#type, Some(array_len))
                 }
                 _ => unreachable!(),
@@ -271,18 +278,18 @@ fn parse_include(pair: Pair<Rule>) -> Rc<Node> {
 }
 
 fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
-    let mut struct_pst = pair.into_inner().skip(1);
+    let mut struct_pst = tokens(pair).skip(1);
     let ident: Ident = ast_unwrap!(struct_pst.next()).into();
     let mut fields = Vec::<StructField>::new();
     for rule in struct_pst {
         match rule.as_rule() {
             Rule::struct_field => {
-                let mut iter = rule.into_inner();
+                let mut iter = tokens(rule);
                 let r#type = Type::from(ast_unwrap!(iter.next()));
                 let next = ast_unwrap!(iter.next());
                 let (elem, ident) = match next.as_rule() {
                     Rule::bounded_array => {
-                        let array_len = parse_array_len(next.clone().into_inner().as_str());
+                        let array_len = parse_array_len(next.clone());
                         let ident = ast_unwrap!(iter.next()).as_str().to_string();
                         (array_len, ident)
                     }
@@ -301,9 +308,6 @@ fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
                     val: (r#type, elem),
                 });
             }
-            Rule::COMMENT => {
-                // Currently unsupported for structs due to varying styles
-            }
             r => unreachable!("Unknown rule `{r:?}`"),
         }
     }
@@ -311,7 +315,7 @@ fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
 }
 
 fn parse_const(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Const {
-    let mut inner = pair.into_inner().skip(1);
+    let mut inner = tokens(pair).skip(1);
 
     let ty = ast_unwrap!(inner.next()).as_str();
     let ident = ast_unwrap!(inner.next()).into();
@@ -334,7 +338,9 @@ fn parse_const(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Const {
 fn parse_interface(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Rc<Node> {
     let span = Span::from(pair.as_span());
     let mut interface = pair.into_inner().skip(1);
-    let mut pairs = ast_unwrap!(interface.next()).into_inner();
+    let mut pairs = tokens(ast_unwrap!(
+        interface.find(|token| token.as_rule() == Rule::iname)
+    ));
     let ident = ast_unwrap!(pairs.next()).as_str().to_string();
     let base = pairs
         .next()
-- 
2.43.0


From f625313da9861d3f5ba33f3d14727d0b1e470fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:59 +0000
Subject: [PATCH 25/43] fix: keep a documentation followed by ordinary comments

---
 idlc_ast/src/pst.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index 14c8312..3fc9860 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -360,7 +360,10 @@ fn parse_interface(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Rc<Node>
                 iface_nodes.push(node);
             }
             Rule::COMMENT => {
-                comment = Documentation::try_from(rule).ok();
+                // Ordinary comments don't come between a documentation and its method.
+                if let Ok(documentation) = Documentation::try_from(rule) {
+                    comment = Some(documentation);
+                }
             }
             _ => unreachable!(),
         }
-- 
2.43.0


From c2eccc1df9a5fec8877a66ebec9c168a8bb38adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 26/43] fix: give constant literals the same meaning in all
 languages

---
 idlc_ast/src/ast.rs |  6 ++++++
 idlc_mir/src/mir.rs | 32 ++++++++++++++++++++++++++++++--
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/idlc_ast/src/ast.rs b/idlc_ast/src/ast.rs
index 36fe0cd..7fa5d2c 100644
--- a/idlc_ast/src/ast.rs
+++ b/idlc_ast/src/ast.rs
@@ -263,6 +263,12 @@ impl Primitive {
             10
         };
         let value = &value.replace("0x", "");
+        let value = &if radix == 16 && r#type.starts_with("float") {
+            // Floats are only parsable from their decimal form.
+            u128::from_str_radix(value.trim_start_matches('-'), radix)?.to_string()
+        } else {
+            value.to_string()
+        };
         match r#type {
             "uint8" => {
                 u8::from_str_radix(value, radix)?;
diff --git a/idlc_mir/src/mir.rs b/idlc_mir/src/mir.rs
index 2223770..297b7c3 100644
--- a/idlc_mir/src/mir.rs
+++ b/idlc_mir/src/mir.rs
@@ -666,14 +666,42 @@ impl From<&idlc_ast::Primitive> for Primitive {
 
 impl From<&idlc_ast::Const> for Const {
     fn from(const_: &idlc_ast::Const) -> Self {
+        let r#type = Primitive::from(&const_.r#type);
         Self {
             ident: const_.ident.clone(),
-            r#type: Primitive::from(&const_.r#type),
-            value: const_.value.to_string(),
+            r#type,
+            value: normalize_literal(&const_.value, r#type),
         }
     }
 }
 
+/// Spells a literal such that it has the same meaning in all target languages.
+fn normalize_literal(value: &str, r#type: Primitive) -> String {
+    let is_float = matches!(r#type, Primitive::Float32 | Primitive::Float64);
+    let (sign, digits) = value
+        .strip_prefix('-')
+        .map_or(("", value), |digits| ("-", digits));
+
+    if let Some(hex) = digits.strip_prefix("0x") {
+        return match u128::from_str_radix(hex, 16) {
+            Ok(value) if is_float => format!("{sign}{value}.0"),
+            _ => value.to_string(),
+        };
+    }
+
+    // A leading zero would denote an octal number.
+    let (integer, fraction) = digits.split_once('.').unwrap_or((digits, ""));
+    let integer = match integer.trim_start_matches('0') {
+        "" => "0",
+        integer => integer,
+    };
+    match fraction {
+        "" if is_float => format!("{sign}{integer}.0"),
+        "" => format!("{sign}{integer}"),
+        fraction => format!("{sign}{integer}.{fraction}"),
+    }
+}
+
 impl Type {
     fn new(ty: &idlc_ast::Type, idl_store: &IDLStore) -> Self {
         Self::new_sized(ty, idl_store).0
-- 
2.43.0


From 78cd2ac59cbf1a7efd841816ac19157b25852d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:29 +0000
Subject: [PATCH 27/43] fix: emit float and minimum constants C and C++ can
 express

---
 idlc_codegen_c/src/globals.rs         |  7 +++----
 idlc_codegen_c/src/interface/mod.rs   | 12 +++++-------
 idlc_codegen_c/src/types.rs           | 26 ++++++++++++++++++++++++++
 idlc_codegen_cpp/src/generator.rs     |  9 +++------
 idlc_codegen_cpp/src/interface/mod.rs | 22 +++++++++++++++-------
 5 files changed, 52 insertions(+), 24 deletions(-)

diff --git a/idlc_codegen_c/src/globals.rs b/idlc_codegen_c/src/globals.rs
index c73fbe9..f8cbddd 100644
--- a/idlc_codegen_c/src/globals.rs
+++ b/idlc_codegen_c/src/globals.rs
@@ -3,7 +3,7 @@
 
 use idlc_mir::{Const, StructInner};
 
-use crate::types::{change_const_primitive, change_primitive};
+use crate::types::{change_primitive, const_value};
 
 pub fn emit_include(include: &std::path::Path) -> String {
     let inc_name = include.display().to_string().replace(".idl", "");
@@ -35,8 +35,7 @@ pub fn emit_struct(r#struct: &StructInner) -> String {
 
 pub fn emit_const(r#const: &Const) -> String {
     let ident = r#const.ident.to_string();
-    let ty = change_const_primitive(r#const.r#type);
-    let value = &r#const.value;
+    let value = const_value(r#const);
 
-    format!("#define {ident} {ty}({value})\n\n")
+    format!("#define {ident} {value}\n\n")
 }
diff --git a/idlc_codegen_c/src/interface/mod.rs b/idlc_codegen_c/src/interface/mod.rs
index 5e00404..0717139 100644
--- a/idlc_codegen_c/src/interface/mod.rs
+++ b/idlc_codegen_c/src/interface/mod.rs
@@ -6,7 +6,7 @@ use idlc_mir::{Interface, InterfaceNode};
 pub mod functions;
 pub mod variable_names;
 
-use crate::types::change_const_primitive;
+use crate::types::const_value;
 
 pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) -> String {
     let ident = interface.ident.to_string();
@@ -21,11 +21,10 @@ pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) ->
         iface.nodes.iter().for_each(|node| match node {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
-                    "#define {}_{} {}({})\n",
+                    "#define {}_{} {}\n",
                     ident,
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    const_value(c)
                 ));
             }
             InterfaceNode::Error(e) => {
@@ -59,11 +58,10 @@ pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) ->
         match node {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
-                    "#define {}_{} {}({})\n",
+                    "#define {}_{} {}\n",
                     ident,
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    const_value(c)
                 ));
             }
             InterfaceNode::Error(e) => {
diff --git a/idlc_codegen_c/src/types.rs b/idlc_codegen_c/src/types.rs
index 1c7c2de..4350a71 100644
--- a/idlc_codegen_c/src/types.rs
+++ b/idlc_codegen_c/src/types.rs
@@ -16,6 +16,32 @@ pub const fn change_const_primitive(primitive: idlc_mir::Primitive) -> &'static
     }
 }
 
+/// Expression which has the value and the type of the constant.
+pub fn const_value(r#const: &idlc_mir::Const) -> String {
+    let ty = change_const_primitive(r#const.r#type);
+    let value = &r#const.value;
+    match r#const.r#type {
+        idlc_mir::Primitive::Float32 => format!("({value}F)"),
+        idlc_mir::Primitive::Float64 => format!("({value})"),
+        // C doesn't have negative literals, the minimum isn't the negation of a literal.
+        idlc_mir::Primitive::Int32 if is_minimum(value, i32::MIN.into()) => {
+            format!("({ty}({}) - 1)", i32::MIN + 1)
+        }
+        idlc_mir::Primitive::Int64 if is_minimum(value, i64::MIN) => {
+            format!("({ty}({}) - 1)", i64::MIN + 1)
+        }
+        _ => format!("{ty}({value})"),
+    }
+}
+
+fn is_minimum(value: &str, minimum: i64) -> bool {
+    let parsed = match value.strip_prefix("-0x") {
+        Some(hex) => i64::from_str_radix(&format!("-{hex}"), 16),
+        None => value.parse(),
+    };
+    parsed == Ok(minimum)
+}
+
 pub const fn change_primitive(primitive: idlc_mir::Primitive) -> &'static str {
     match primitive {
         idlc_mir::Primitive::Uint8 => "uint8_t",
diff --git a/idlc_codegen_cpp/src/generator.rs b/idlc_codegen_cpp/src/generator.rs
index db09835..e457a6f 100644
--- a/idlc_codegen_cpp/src/generator.rs
+++ b/idlc_codegen_cpp/src/generator.rs
@@ -2,7 +2,7 @@
 // SPDX-License-Identifier: BSD-3-Clause
 
 use idlc_codegen_c::globals::emit_struct;
-use idlc_codegen_c::types::{change_const_primitive, change_primitive};
+use idlc_codegen_c::types::{change_primitive, const_value};
 use idlc_mir::Node;
 
 use crate::interface::{emit_interface_impl, emit_interface_invoke};
@@ -24,12 +24,9 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
                 Node::Const(c) => {
                     let ident = c.ident.to_string();
                     let cnt_ty = change_primitive(c.r#type);
-                    let ty = change_const_primitive(c.r#type);
-                    let value = &c.value;
+                    let value = const_value(c);
 
-                    result.push_str(&format!(
-                        "static const {cnt_ty} {ident} = {ty}({value});\n\n"
-                    ));
+                    result.push_str(&format!("static const {cnt_ty} {ident} = {value};\n\n"));
                 }
                 Node::Struct(s) => {
                     result.push_str(&emit_struct(s.as_ref()));
diff --git a/idlc_codegen_cpp/src/interface/mod.rs b/idlc_codegen_cpp/src/interface/mod.rs
index b836887..06ffb06 100644
--- a/idlc_codegen_cpp/src/interface/mod.rs
+++ b/idlc_codegen_cpp/src/interface/mod.rs
@@ -5,7 +5,15 @@ use idlc_mir::{Interface, InterfaceNode};
 
 mod functions;
 
-use idlc_codegen_c::types::{change_const_primitive, change_primitive};
+use idlc_codegen_c::types::{change_primitive, const_value};
+
+/// Only integral members can be initialized within the class if they are just `const`.
+const fn const_qualifier(primitive: idlc_mir::Primitive) -> &'static str {
+    match primitive {
+        idlc_mir::Primitive::Float32 | idlc_mir::Primitive::Float64 => "constexpr",
+        _ => "const",
+    }
+}
 
 pub fn emit_interface_impl(interface: &Interface) -> String {
     let ident = interface.ident.to_string();
@@ -23,11 +31,11 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
                     r#"
-    static const {} {} = {}({});"#,
+    static {} {} {} = {};"#,
+                    const_qualifier(c.r#type),
                     change_primitive(c.r#type),
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    const_value(c)
                 ));
             }
             InterfaceNode::Error(e) => {
@@ -60,11 +68,11 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
                     r#"
-    static const {} {} = {}({});"#,
+    static {} {} {} = {};"#,
+                    const_qualifier(c.r#type),
                     change_primitive(c.r#type),
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    const_value(c)
                 ));
             }
             InterfaceNode::Error(e) => {
-- 
2.43.0


From ab9132e47eedc3620688d9a9d73030d4e0f17d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 28/43] fix: emit Java constants of the full range of their
 type

---
 idlc_ast/src/pst.rs                    |  5 ++---
 idlc_ast_passes/src/idl_store.rs       |  4 +---
 idlc_codegen_java/src/globals.rs       |  5 ++---
 idlc_codegen_java/src/interface/mod.rs |  5 ++---
 idlc_codegen_java/src/types.rs         | 29 ++++++++++++++++++++++++++
 5 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index 3fc9860..af09bf4 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -183,9 +183,8 @@ impl From<Pair<'_, Rule>> for Type {
 
 fn parse_array_len(array: Pair<Rule>) -> Count {
     let len = ast_unwrap!(tokens(array).next()).as_str();
-    len.parse().unwrap_or_else(|e| {
-        idlc_errors::unrecoverable!("'{len}' isn't a valid array length [{e}]")
-    })
+    len.parse()
+        .unwrap_or_else(|e| idlc_errors::unrecoverable!("'{len}' isn't a valid array length [{e}]"))
 }
 
 impl From<Pair<'_, Rule>> for ParamTypeIn {
diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index 44530ee..38b96ab 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -148,9 +148,7 @@ impl IDLStore {
 
     fn check_includes(&mut self, ast: &'_ idlc_ast::Ast) -> Result<Vec<String>, crate::Error> {
         walk_all(self, ast);
-        self.graph
-            .toposort()
-            .map_err(crate::Error::CyclicalInclude)
+        self.graph.toposort().map_err(crate::Error::CyclicalInclude)
     }
 
     #[inline]
diff --git a/idlc_codegen_java/src/globals.rs b/idlc_codegen_java/src/globals.rs
index f6aec73..956bf4c 100644
--- a/idlc_codegen_java/src/globals.rs
+++ b/idlc_codegen_java/src/globals.rs
@@ -3,7 +3,7 @@
 
 use idlc_mir::{Const, StructInner};
 
-use crate::types::change_primitive;
+use crate::types::{change_const, change_primitive};
 
 pub fn emit_struct(r#struct: &StructInner) -> String {
     let mut contents = String::new();
@@ -44,8 +44,7 @@ pub fn emit_struct(r#struct: &StructInner) -> String {
 
 pub fn emit_const(r#const: &Const) -> String {
     let ident = r#const.ident.to_string(); // Const ident should be uppercase, but leave it for now for backward compatibility.
-    let ty = change_primitive(r#const.r#type);
-    let value = &r#const.value;
+    let (ty, value) = change_const(r#const);
 
     format!(
         r#"{ty} {ident} = {value};
diff --git a/idlc_codegen_java/src/interface/mod.rs b/idlc_codegen_java/src/interface/mod.rs
index ea30fcd..be8b167 100644
--- a/idlc_codegen_java/src/interface/mod.rs
+++ b/idlc_codegen_java/src/interface/mod.rs
@@ -1,7 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-use crate::types::change_primitive;
+use crate::types::change_const;
 
 use idlc_mir::{Interface, InterfaceNode};
 
@@ -23,8 +23,7 @@ pub fn emit_interface(interface: &Interface, input_name: &str) -> String {
         iface.nodes.iter().for_each(|node| match node {
             InterfaceNode::Const(r#const) => {
                 let const_ident = r#const.ident.to_uppercase();
-                let ty = change_primitive(r#const.r#type);
-                let value = &r#const.value;
+                let (ty, value) = change_const(r#const);
                 constants.push_str(&format!(
                     r#"{ty} {ident}_{const_ident} = {value};
     "#
diff --git a/idlc_codegen_java/src/types.rs b/idlc_codegen_java/src/types.rs
index a7bcf58..683a74a 100644
--- a/idlc_codegen_java/src/types.rs
+++ b/idlc_codegen_java/src/types.rs
@@ -15,6 +15,35 @@ pub const fn change_primitive(primitive: idlc_mir::Primitive) -> &'static str {
     }
 }
 
+/// Type and value of a constant.
+///
+/// Java only has signed integers (besides `char`), values of unsigned types keep their bits.
+pub fn change_const(r#const: &idlc_mir::Const) -> (&'static str, String) {
+    let value = &r#const.value;
+    match r#const.r#type {
+        // A `char` can't hold the negative values of the range.
+        idlc_mir::Primitive::Int16 => ("short", format!("(short) {value}")),
+        primitive @ idlc_mir::Primitive::Float32 => {
+            (change_primitive(primitive), format!("{value}f"))
+        }
+        primitive @ idlc_mir::Primitive::Float64 => {
+            (change_primitive(primitive), value.to_string())
+        }
+        primitive @ (idlc_mir::Primitive::Uint64 | idlc_mir::Primitive::Int64) => (
+            change_primitive(primitive),
+            value
+                .parse::<u64>()
+                .ok()
+                .filter(|value| i64::try_from(*value).is_err())
+                .map_or_else(|| format!("{value}L"), |value| format!("{value:#x}L")),
+        ),
+        primitive => {
+            let ty = change_primitive(primitive);
+            (ty, format!("({ty}) {value}L"))
+        }
+    }
+}
+
 pub fn capitalize_first_letter(s: &str) -> String {
     if s == "byte" {
         return "".to_string();
-- 
2.43.0


From cef1098559949031a8b5b724131de3338b815624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 29/43] fix: count more than 255 bundled parameters

The counters of bundled parameters are not limited by the counts word, u8
overflowed: a panic in debug builds and a wrong signature in optimised ones.
---
 idlc_codegen/src/counts.rs                            | 4 ++--
 idlc_codegen_c/src/interface/functions/signature.rs   | 4 ++--
 idlc_codegen_cpp/src/interface/functions/signature.rs | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/idlc_codegen/src/counts.rs b/idlc_codegen/src/counts.rs
index 09bf81a..324c6fe 100644
--- a/idlc_codegen/src/counts.rs
+++ b/idlc_codegen/src/counts.rs
@@ -9,8 +9,8 @@ pub struct Counter {
     pub input_objects: u8,
     pub output_objects: u8,
     pub output_buffers: u8,
-    pub total_bundled_input: u8,
-    pub total_bundled_output: u8,
+    pub total_bundled_input: u32,
+    pub total_bundled_output: u32,
 
     has_bundled_input: bool,
     has_bundled_output: bool,
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index b9304e5..edd90db 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -14,8 +14,8 @@ pub struct Signature {
     bundled_outputs: Vec<String>,
     input_obj_arg: Vec<String>,
 
-    total_bundled_input: u8,
-    total_bundled_output: u8,
+    total_bundled_input: u32,
+    total_bundled_output: u32,
     is_no_typed_objects: bool,
 }
 
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index d6258e4..213f4e5 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -15,8 +15,8 @@ pub struct Signature {
     input_obj_arg: Vec<String>,
     output_obj_arg: Vec<String>,
 
-    total_bundled_input: u8,
-    total_bundled_output: u8,
+    total_bundled_input: u32,
+    total_bundled_output: u32,
 }
 
 impl Signature {
-- 
2.43.0


From 014e81dbc3b41f5f54be1c2a595a340be9313d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 30/43] fix: emit zero for float constants too small for their
 type

javac and clang refuse literals which round to zero.
---
 idlc_mir/src/mir.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/idlc_mir/src/mir.rs b/idlc_mir/src/mir.rs
index 297b7c3..5e39041 100644
--- a/idlc_mir/src/mir.rs
+++ b/idlc_mir/src/mir.rs
@@ -695,7 +695,14 @@ fn normalize_literal(value: &str, r#type: Primitive) -> String {
         "" => "0",
         integer => integer,
     };
+    // Compilers refuse literals which are too small for their type.
+    let is_zero = match r#type {
+        Primitive::Float32 => value.parse() == Ok(0f32),
+        Primitive::Float64 => value.parse() == Ok(0f64),
+        _ => false,
+    };
     match fraction {
+        _ if is_zero => "0.0".to_string(),
         "" if is_float => format!("{sign}{integer}.0"),
         "" => format!("{sign}{integer}"),
         fraction => format!("{sign}{integer}.{fraction}"),
-- 
2.43.0


From 0b17d1e33c70f210dd6654d2b833b94463478f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 31/43] fix: skip directories when searching an included file

---
 idlc_ast_passes/src/idl_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index 38b96ab..9fb3f6d 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -121,7 +121,7 @@ impl IDLStore {
 
         for include_path in &self.include_paths {
             let possibility = include_path.join(path);
-            if possibility.exists() {
+            if possibility.is_file() {
                 let canonical = possibility.canonicalize().unwrap();
                 if first.is_none() {
                     first = Some(canonical.clone());
-- 
2.43.0


From b8f49b02e9e774154ae56a1ac2a7e32fa68ffdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 32/43] fix: keep markings inside their comment

---
 idlc_codegen/src/marking.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/idlc_codegen/src/marking.rs b/idlc_codegen/src/marking.rs
index 5a0a5ee..850051a 100644
--- a/idlc_codegen/src/marking.rs
+++ b/idlc_codegen/src/marking.rs
@@ -58,10 +58,18 @@ impl Marking {
             return Self(String::new());
         }
         let mut documentation = style.start().to_string();
+        // The comment must neither end early nor continue on the next line.
+        let mut marking = marking.replace("\r\n", "\n").replace('\r', "\n");
+        if style == MarkingStyle::Java {
+            marking = marking.replace("*/", "* /").replace("\\u", "\\ u");
+        }
         for line in marking.lines() {
             documentation += style.prefix();
             documentation.push(' ');
             documentation.push_str(line);
+            if line.trim_end().ends_with('\\') {
+                documentation.push_str(" //");
+            }
             documentation.push('\n');
         }
         documentation.push_str(style.end());
-- 
2.43.0


From 7bbb1c6014561920ddc567fa0dbf0aca81c485af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 33/43] fix: keep documentation comments valid in every
 language

Bare carriage returns (a line break in IDL) are refused in Rust, /* inside a
comment is warned about in C and \u is translated by javac.
---
 idlc_codegen/src/documentation.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/idlc_codegen/src/documentation.rs b/idlc_codegen/src/documentation.rs
index f0c6349..f5ee9d2 100644
--- a/idlc_codegen/src/documentation.rs
+++ b/idlc_codegen/src/documentation.rs
@@ -63,6 +63,14 @@ impl Documentation {
     }
 
     fn new_with_idlc_doc(doc: &str, style: DocumentationStyle) -> Self {
+        let doc = doc.replace("\r\n", "\n").replace('\r', "\n");
+        // Compilers warn about comments which seem to be nested and Java translates `\u`
+        // before anything else.
+        let doc = match style {
+            DocumentationStyle::Rust => doc,
+            DocumentationStyle::C => doc.replace("/*", "/ *"),
+            DocumentationStyle::Java => doc.replace("\\u", "\\ u"),
+        };
         let mut documentation = style.start().to_string();
         documentation.push('\n');
         let last_line = doc.lines().last().unwrap();
-- 
2.43.0


From df3f9b25b0c65ef21a6d0b3db76a8edbd7d4455d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 34/43] fix: keep untyped input object arrays const in C

---
 idlc_codegen_c/src/interface/functions/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index edd90db..19fc0bb 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -125,7 +125,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_input_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("(*{}_ptr)[{cnt}]", ident);
         let ty = if self.is_no_typed_objects {
-            "Object".to_string()
+            format!("{CONST} Object")
         } else {
             format!("{CONST} {}", ty.unwrap_or("Object"))
         };
-- 
2.43.0


From 4117e5d175fde6f851916955dcee70c5fe2a08a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 35/43] fix: keep generated locals apart from parameters in C
 and C++

---
 .../src/interface/functions/implementation.rs |  8 ++++++--
 .../src/interface/functions/invoke.rs         |  6 +++---
 .../src/interface/functions/signature.rs      | 12 ++++++-----
 .../src/interface/functions/implementation.rs | 12 +++++------
 .../src/interface/functions/invoke.rs         | 20 +++++++++----------
 .../src/interface/functions/signature.rs      | 16 ++++++++-------
 6 files changed, 41 insertions(+), 33 deletions(-)

diff --git a/idlc_codegen_c/src/interface/functions/implementation.rs b/idlc_codegen_c/src/interface/functions/implementation.rs
index 7bc3f30..d67be97 100644
--- a/idlc_codegen_c/src/interface/functions/implementation.rs
+++ b/idlc_codegen_c/src/interface/functions/implementation.rs
@@ -184,9 +184,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
         let _idx = self.idx();
+        let mut name = format!("{ident}");
+        if !ident.contains('.') {
+            name = format!("{name}_obj");
+        }
         self.args.push(format!(
             r#"
-        {{.o = {ident} }},"#
+        {{.o = {name} }},"#
         ));
     }
 
@@ -310,7 +314,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let idx = self.idx();
         let mut name = format!("{ident}");
         if !ident.contains("->") {
-            name = format!("*{name}");
+            name = format!("*{name}_ptr");
         }
         self.post_call_objects.push(format!(
             r#"
diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index 7e4d7ba..8f69d68 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -117,7 +117,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }
         self.pre.push(format!(
             r#" \
-                const {ty} {ident}[{cnt}] = {{ {objs} }};"#,
+                const {ty} {ident}_arr[{cnt}] = {{ {objs} }};"#,
         ));
     }
 
@@ -252,7 +252,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ty: Option<&str>,
         cnt: idlc_mir::Count,
     ) {
-        let name = format!("{}", ident);
+        let name = format!("{}_arr", ident);
         let ty = if self.is_no_typed_objects {
             "Object".to_string()
         } else {
@@ -355,7 +355,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             ty.unwrap_or("Object").to_string()
         };
         if !ident.contains("->") && !ident.contains('.') {
-            name = format!("*{name}");
+            name = format!("*{name}_ptr");
             self.pre.push(format!(
                 r#" \
                 {ty} {name} = &{ARGS}[{idx}].o;"#
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 19fc0bb..8db5a91 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -132,7 +132,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((name, ty));
         self.input_obj_arg.push(format!("{}_len", ident));
         self.outputs
-            .push((format!("&{}", ident), "size_t".to_string()));
+            .push((format!("&{}_arr", ident), "size_t".to_string()));
     }
 
     fn visit_input_primitive(&mut self, ident: &Ident, ty: Primitive) {
@@ -195,7 +195,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         } else {
             ty.unwrap_or("Object")
         };
-        self.inputs.push((format!("{ident}"), ty.to_string()));
+        self.inputs.push((format!("{ident}_obj"), ty.to_string()));
         self.outputs
             .push((format!("*{}_ptr", ident), ty.to_string()));
     }
@@ -257,7 +257,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         };
         self.inputs.push((name, ty));
         self.outputs
-            .push((format!("&{}", ident), "size_t".to_string()));
+            .push((format!("&{}_arr", ident), "size_t".to_string()));
     }
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
@@ -316,7 +316,9 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         } else {
             ty.unwrap_or("Object")
         };
-        self.inputs.push((format!("*{}", ident), ty.to_string()));
-        self.outputs.push((format!("{}", ident), ty.to_string()));
+        self.inputs
+            .push((format!("*{}_ptr", ident), ty.to_string()));
+        self.outputs
+            .push((format!("{}_ptr", ident), ty.to_string()));
     }
 }
diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index 779fb0f..71b8578 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -32,7 +32,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             let _idx = self.0.idx();
             self.0.args.push(format!(
                 r#"
-        {{.o = ({ident}_ref)[{i}].get() }},"#
+        {{.o = ({ident}_ref)[{i}].ProxyBase::get() }},"#
             ));
         }
     }
@@ -117,7 +117,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         } else {
             self.0.args.push(format!(
                 r#"
-        {{.o = {name}.get() }},"#
+        {{.o = {name}_obj.ProxyBase::get() }},"#
             ));
         }
     }
@@ -148,7 +148,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.0.post_call.push(format!(
             r#"
     for(size_t arg_idx=0;arg_idx<{cnt};arg_idx++)
-        ({ident}_ref)[arg_idx].consume(a[{idx}+arg_idx].o);"#,
+        ({ident}_ref)[arg_idx].ProxyBase::consume(a[{idx}+arg_idx].o);"#,
         ));
 
         for _ in 1..cnt.into() {
@@ -232,7 +232,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         } else {
             self.0.post_call.push(format!(
                 r#"
-    {ident}.consume({ARGS}[{idx}].o);"#
+    {ident}_obj.ProxyBase::consume({ARGS}[{idx}].o);"#
             ));
         }
     }
@@ -274,14 +274,14 @@ pub fn emit(
 
     let returns = if total > 0 {
         format!(
-            "invoke({OP}_{ident}, a, ObjectCounts_pack({0}, {1}, {2}, {3}));",
+            "ProxyBase::invoke({OP}_{ident}, a, ObjectCounts_pack({0}, {1}, {2}, {3}));",
             counts.input_buffers,
             counts.output_buffers,
             counts.input_objects,
             counts.output_objects
         )
     } else {
-        format!("invoke({OP}_{ident}, 0, 0);")
+        format!("ProxyBase::invoke({OP}_{ident}, 0, 0);")
     };
 
     format!(
diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index 5368799..0fc6baa 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -44,10 +44,10 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }
         self.0.pre.push(format!(
             r#" \
-                const union {ident} {{
-                    ~{ident}() {{}}
+                const union {ident}_arr {{
+                    ~{ident}_arr() {{}}
                     {ty} inner[{cnt}];
-                }} {ident} = {{.inner= {{ {obj_args} }}}};"#,
+                }} {ident}_arr = {{.inner= {{ {obj_args} }}}};"#,
         ));
     }
 
@@ -79,11 +79,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let ty = ty.unwrap_or("ProxyBase").to_string();
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident}({ARGS}[{idx}].o);"#
+                {ty} {ident}_obj({ARGS}[{idx}].o);"#
         ));
         self.0.post.push(format!(
             r#" \
-                p_{ident}.extract();"#
+                {ident}_obj.ProxyBase::extract();"#
         ));
     }
 
@@ -111,12 +111,12 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             let idx = self.0.idx();
             obj_assign.push_str(&format!(
                 r#"
-                {ARGS}[{idx}].o=p_{ident}[{i}].extract();"#
+                {ARGS}[{idx}].o={ident}_obj[{i}].ProxyBase::extract();"#
             ));
         }
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident}[{cnt}];"#
+                {ty} {ident}_obj[{cnt}];"#
         ));
         self.0.post.push(format!(
             r#" \
@@ -169,11 +169,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let ty = ty.unwrap_or("ProxyBase").to_string();
         self.0.pre.push(format!(
             r#" \
-                {ty} p_{ident};"#
+                {ty} {ident}_obj;"#
         ));
         self.0.post.push(format!(
             r#" \
-                {ARGS}[{idx}].o = p_{ident}.extract();"#
+                {ARGS}[{idx}].o = {ident}_obj.ProxyBase::extract();"#
         ));
     }
 }
@@ -225,7 +225,7 @@ pub fn emit(
                     break;
                 }}
 {pre}
-                int32_t r = {ident}({return_idents});
+                int32_t r = this->{ident}({return_idents});
 {post}
                 return r;
             }}"#
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index 213f4e5..b7e5a03 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -99,7 +99,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((name, ty));
         self.input_obj_arg.push(format!("{}_len", ident));
         self.outputs
-            .push((format!("{}.inner", ident), "size_t".to_string()));
+            .push((format!("{}_arr.inner", ident), "size_t".to_string()));
     }
 
     fn visit_input_primitive(&mut self, ident: &Ident, ty: Primitive) {
@@ -149,11 +149,11 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
     fn visit_input_object(&mut self, ident: &Ident, ty: Option<&str>) {
         self.inputs.push((
-            format!("&{}", ident),
+            format!("&{}_obj", ident),
             format!("{CONST} {}", ty.unwrap_or("ProxyBase")),
         ));
         self.outputs
-            .push((format!("p_{}", ident), ty.unwrap_or("Object").to_string()));
+            .push((format!("{}_obj", ident), ty.unwrap_or("Object").to_string()));
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
@@ -210,7 +210,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((name, ty));
         self.output_obj_arg.push(format!("{}_len", ident));
         self.outputs
-            .push((format!("p_{}", ident), "size_t".to_string()));
+            .push((format!("{}_obj", ident), "size_t".to_string()));
     }
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
@@ -255,9 +255,11 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     }
 
     fn visit_output_object(&mut self, ident: &Ident, ty: Option<&str>) {
-        self.inputs
-            .push((format!("&{}", ident), ty.unwrap_or("ProxyBase").to_string()));
+        self.inputs.push((
+            format!("&{}_obj", ident),
+            ty.unwrap_or("ProxyBase").to_string(),
+        ));
         self.outputs
-            .push((format!("p_{}", ident), ty.unwrap_or("Object").to_string()));
+            .push((format!("{}_obj", ident), ty.unwrap_or("Object").to_string()));
     }
 }
-- 
2.43.0


From e940d3f8c20d1c82fbf369e20d17a3e482281a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 36/43] fix: keep generated locals apart from parameters in
 Rust

---
 .../src/interface/functions/implementation.rs | 13 ++++-----
 .../src/interface/functions/invoke.rs         | 27 ++++++++++---------
 .../src/interface/functions/serialization.rs  |  9 +++++--
 .../src/interface/functions/signature.rs      |  4 +--
 idlc_codegen_rust/src/interface/mod.rs        |  6 ++---
 .../src/interface/variable_names.rs           | 16 ++++++-----
 6 files changed, 43 insertions(+), 32 deletions(-)

diff --git a/idlc_codegen_rust/src/interface/functions/implementation.rs b/idlc_codegen_rust/src/interface/functions/implementation.rs
index 7e443b7..d93fd47 100644
--- a/idlc_codegen_rust/src/interface/functions/implementation.rs
+++ b/idlc_codegen_rust/src/interface/functions/implementation.rs
@@ -67,9 +67,10 @@ impl Implementation {
     }
 
     fn generate_output_buffer(&mut self, ident: &Ident, ty: &str) {
+        let lenout = format!("_{ident}_lenout");
         let ident = EscapedIdent::new(ident);
         self.post_call.push(format!(
-            "*{ident}_lenout = unsafe {{ {ARGS}[{idx}].b.size }} / std::mem::size_of::<{ty}>();",
+            "*{lenout} = unsafe {{ {ARGS}[{idx}].b.size }} / std::mem::size_of::<{ty}>();",
             idx = self.args.len()
         ));
         self.args.push(format!(
@@ -117,13 +118,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.initializations.push(format!(
             r#"
             {definition}
-            let mut bi = {BI_STRUCT}({idents});
+            let mut _bi = {BI_STRUCT}({idents});
             "#
         ));
         self.args.push(format!(
             r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
-                    ptr: std::ptr::addr_of!(bi).cast(),
+                    ptr: std::ptr::addr_of!(_bi).cast(),
                     size: {size},
                 }}
             }}
@@ -239,16 +240,16 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.initializations.push(format!(
             r#"
                 {definition}
-                let mut bo = std::mem::MaybeUninit::<{BO_STRUCT}>::uninit();
+                let mut _bo = std::mem::MaybeUninit::<{BO_STRUCT}>::uninit();
                 "#
         ));
         self.post_call.push(format!(
-            "let {BO_STRUCT}({idents}) = unsafe {{ bo.assume_init() }};"
+            "let {BO_STRUCT}({idents}) = unsafe {{ _bo.assume_init() }};"
         ));
         self.args.push(format!(
             r#"{ARG} {{
                 b: {OUTPUT_BUFFER} {{
-                    ptr: std::ptr::addr_of_mut!(bo).cast(),
+                    ptr: std::ptr::addr_of_mut!(_bo).cast(),
                     size: {size},
                 }}
             }}"#
diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index dd238f0..89d1de4 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -61,22 +61,25 @@ impl Invoke {
         }};"#));
     }
 
-    fn generate_for_output_buffer(&mut self, ident: EscapedIdent, ty: &str) {
+    fn generate_for_output_buffer(&mut self, ident: &Ident, ty: &str) {
         let idx = self.idx();
+        let orig = format!("_{ident}_orig");
+        let lenout = format!("_{ident}_lenout");
+        let ident = EscapedIdent::new(ident);
         self.pre.push(format!(
-            r#"let {ident}_orig = {ARGS}[{idx}].b.size;
-            let {ident}_lenout = &mut *std::ptr::addr_of_mut!({ARGS}[{idx}].b.size);"#
+            r#"let {orig} = {ARGS}[{idx}].b.size;
+            let {lenout} = &mut *std::ptr::addr_of_mut!({ARGS}[{idx}].b.size);"#
         ));
         self.pre.push(format!(
-        r#"let {ident} = if {ident}_orig == 0 {{
+        r#"let {ident} = if {orig} == 0 {{
             &mut []
         }} else {{
-            std::slice::from_raw_parts_mut({ARGS}[{idx}].b.ptr.cast::<{ty}>(), {ident}_orig / std::mem::size_of::<{ty}>())
+            std::slice::from_raw_parts_mut({ARGS}[{idx}].b.ptr.cast::<{ty}>(), {orig} / std::mem::size_of::<{ty}>())
         }};"#));
         self.post.push(format!(
             r#"
-            *{ident}_lenout = {ident}_lenout.saturating_mul(std::mem::size_of::<{ty}>());
-            assert!(*{ident}_lenout <= {ident}_orig);
+            *{lenout} = {lenout}.saturating_mul(std::mem::size_of::<{ty}>());
+            assert!(*{lenout} <= {orig});
             "#
         ));
     }
@@ -125,7 +128,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             "#,
         ));
         self.pre.push(format!(
-            "let {BI_STRUCT}({idents}) = std::ptr::read(args[0].bi.ptr.cast::<{BI_STRUCT}>());"
+            "let {BI_STRUCT}({idents}) = std::ptr::read({ARGS}[0].bi.ptr.cast::<{BI_STRUCT}>());"
         ));
         self.pre.push(packer.post_bi_assignments());
     }
@@ -185,11 +188,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
-        self.generate_for_output_buffer(EscapedIdent::new(ident), change_primitive(ty));
+        self.generate_for_output_buffer(ident, change_primitive(ty));
     }
 
     fn visit_output_struct_buffer(&mut self, ident: &Ident, ty: &StructInner) {
-        self.generate_for_output_buffer(EscapedIdent::new(ident), &namespaced_struct(ty));
+        self.generate_for_output_buffer(ident, &namespaced_struct(ty));
     }
 
     fn visit_output_big_struct(&mut self, ident: &Ident, r#struct: &StructInner) {
@@ -306,7 +309,7 @@ pub fn emit(
     // Callers pass no argument array at all to methods without arguments.
     let args = match counts.total() {
         0 => String::new(),
-        n_args => format!("let args = std::slice::from_raw_parts_mut({ARGS}, {n_args});"),
+        n_args => format!("let {ARGS} = std::slice::from_raw_parts_mut({ARGS}, {n_args});"),
     };
     let counts = (
         counts.input_buffers,
@@ -331,7 +334,7 @@ pub fn emit(
 
         {pre}
 
-        match (*{CONTEXT}).inner.lock().map_err(|_| std::mem::transmute({GENERIC_ERROR}::INVALID)).and_then(|mut cx| cx.r#{ident}({params})) {{
+        match (*{CONTEXT}).inner.lock().map_err(|_| std::mem::transmute({GENERIC_ERROR}::INVALID)).and_then(|mut _cx| (**_cx).r#{ident}({params})) {{
             Ok(({returns})) => {{
                 {post}
                 {OK}
diff --git a/idlc_codegen_rust/src/interface/functions/serialization.rs b/idlc_codegen_rust/src/interface/functions/serialization.rs
index b2028fc..75fd29f 100644
--- a/idlc_codegen_rust/src/interface/functions/serialization.rs
+++ b/idlc_codegen_rust/src/interface/functions/serialization.rs
@@ -5,6 +5,7 @@ use std::borrow::Cow;
 
 use idlc_codegen::serialization::Type;
 
+use crate::interface::variable_names::invoke::{BI_STRUCT, BO_STRUCT};
 use crate::{
     ident::EscapedIdent,
     types::{change_primitive, namespaced_struct},
@@ -26,7 +27,7 @@ impl<'a> PackedPrimitives<'a> {
     }
 
     pub fn bi_definition(&self) -> Option<TransportBuffer> {
-        Self::generate_struct(self.0.input_types(), "BI", self.0.packed_input_size())
+        Self::generate_struct(self.0.input_types(), BI_STRUCT, self.0.packed_input_size())
     }
 
     pub fn bi_definition_idents(&self) -> impl ExactSizeIterator<Item = String> + '_ {
@@ -58,7 +59,11 @@ impl<'a> PackedPrimitives<'a> {
     }
 
     pub fn bo_definition(&self) -> Option<TransportBuffer> {
-        Self::generate_struct(self.0.output_types(), "BO", self.0.packed_output_size())
+        Self::generate_struct(
+            self.0.output_types(),
+            BO_STRUCT,
+            self.0.packed_output_size(),
+        )
     }
 
     pub fn bo_idents(&self) -> impl ExactSizeIterator<Item = String> + '_ {
diff --git a/idlc_codegen_rust/src/interface/functions/signature.rs b/idlc_codegen_rust/src/interface/functions/signature.rs
index 4499ec4..6239576 100644
--- a/idlc_codegen_rust/src/interface/functions/signature.rs
+++ b/idlc_codegen_rust/src/interface/functions/signature.rs
@@ -116,7 +116,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
         self.push_inputs(ident, format!("&mut [{}]", change_primitive(ty)));
         self.push_inputs(
-            &idlc_mir::Ident::new_without_span(format!("{ident}_lenout")),
+            &idlc_mir::Ident::new_without_span(format!("_{ident}_lenout")),
             "&mut usize",
         );
     }
@@ -124,7 +124,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_output_struct_buffer(&mut self, ident: &Ident, ty: &StructInner) {
         self.push_inputs(ident, format!("&mut [{}]", namespaced_struct(ty)));
         self.push_inputs(
-            &idlc_mir::Ident::new_without_span(format!("{ident}_lenout")),
+            &idlc_mir::Ident::new_without_span(format!("_{ident}_lenout")),
             "&mut usize",
         );
     }
diff --git a/idlc_codegen_rust/src/interface/mod.rs b/idlc_codegen_rust/src/interface/mod.rs
index ddfcd43..03e5d5d 100644
--- a/idlc_codegen_rust/src/interface/mod.rs
+++ b/idlc_codegen_rust/src/interface/mod.rs
@@ -136,13 +136,13 @@ pub fn emit(interface: &Interface) -> String {
     unsafe extern "C" fn invoke({h}: {CONTEXT}, {op}: {OP_ID}, {args}: *mut {ARG}, {counts}: {COUNTS}) -> i32 {{
         debug_assert_eq!({h}.align_offset(std::mem::align_of::<{wrapper}>()), 0);
         let {cx} = {h}.cast::<{wrapper}>();
-        match op {{
+        match {op} {{
             {invoke_arms}
             {OP_RELEASE} => {{
-                {WRAPPER}::release(cx)
+                {WRAPPER}::release({cx})
             }},
             {OP_RETAIN} => {{
-                {WRAPPER}::retain(cx)
+                {WRAPPER}::retain({cx})
             }},
             _ => {GENERIC_ERROR}::INVALID.into(),
         }}
diff --git a/idlc_codegen_rust/src/interface/variable_names.rs b/idlc_codegen_rust/src/interface/variable_names.rs
index 0994bb3..59c706b 100644
--- a/idlc_codegen_rust/src/interface/variable_names.rs
+++ b/idlc_codegen_rust/src/interface/variable_names.rs
@@ -1,14 +1,16 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+// Identifiers of the IDL never start with an underscore, so these cannot
+// be shadowed by (or shadow) a parameter.
 pub(super) mod invoke {
-    pub const HANDLE: &str = "h";
-    pub const OP_ID: &str = "op";
-    pub const ARGS: &str = "args";
-    pub const COUNTS: &str = "counts";
+    pub const HANDLE: &str = "_h";
+    pub const OP_ID: &str = "_op";
+    pub const ARGS: &str = "_args";
+    pub const COUNTS: &str = "_counts";
     pub const MARKER: &str = "MARKER";
-    pub const CONTEXT: &str = "cx";
+    pub const CONTEXT: &str = "_cx";
 
-    pub const BI_STRUCT: &str = "BI";
-    pub const BO_STRUCT: &str = "BO";
+    pub const BI_STRUCT: &str = "_BI";
+    pub const BO_STRUCT: &str = "_BO";
 }
-- 
2.43.0


From 0f25ebdc831a7df8bb28f8423183732735d5956c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 37/43] fix: keep the C skeleton macro and its bundles
 warning-free

---
 .../src/interface/functions/invoke.rs         |  8 +++---
 .../src/interface/functions/signature.rs      | 28 +++++++++++++++----
 idlc_codegen_c/src/interface/mod.rs           | 12 ++++----
 .../src/interface/functions/signature.rs      | 28 +++++++++++++++----
 4 files changed, 54 insertions(+), 22 deletions(-)

diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index 8f69d68..0ee6052 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -393,19 +393,19 @@ pub fn emit(
     let params = super::signature::iter_to_string(signature.params());
     let call = if function.is_optional() {
         weak_declarations.push_str(&format!(
-            r#"int32_t prefix##{ident}(type ctx{params}) __attribute__((weak)); \
+            r#"int32_t _prefix##{ident}(_type ctx{params}) __attribute__((weak)); \
         "#
         ));
         format!(
             r"int32_t r; \
-                if (prefix##{ident} != NULL) {{ \
-                    r = prefix##{ident}(me{return_idents}); \
+                if (_prefix##{ident} != NULL) {{ \
+                    r = _prefix##{ident}(me{return_idents}); \
                 }} else {{ \
                     return Object_ERROR_INVALID; \
                 }} \"
         )
     } else {
-        format!(r"int32_t r = prefix##{ident}(me{return_idents}); \")
+        format!(r"int32_t r = _prefix##{ident}(me{return_idents}); \")
     };
 
     let counts = format!(
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 8db5a91..defe890 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -3,7 +3,7 @@
 
 use idlc_mir::{Ident, Primitive, StructInner};
 
-use crate::interface::variable_names::invoke::CONST;
+use crate::interface::variable_names::invoke::{BI, BO, CONST};
 use crate::types::change_primitive;
 
 #[derive(Debug, Clone, Default)]
@@ -158,7 +158,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_inputs.len() > 1
         {
             self.outputs.push((
-                format!("({CONST} {}*)({CONST} void*)&i->m_{}", ty.ident, ident),
+                format!(
+                    "({CONST} {}*)({CONST} void*)(({CONST} char*)i + offsetof(struct {BI}, m_{}))",
+                    ty.ident, ident
+                ),
                 format!("{CONST} {}", ty.ident),
             ));
         } else if ty.contains_interfaces() {
@@ -177,7 +180,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_inputs.len() > 1
         {
             self.outputs.push((
-                format!("({CONST} {}*)({CONST} void*)&i->m_{}", ty.ident, ident),
+                format!(
+                    "({CONST} {}*)({CONST} void*)(({CONST} char*)i + offsetof(struct {BI}, m_{}))",
+                    ty.ident, ident
+                ),
                 format!("{CONST} {}", ty.ident),
             ));
         } else if ty.contains_interfaces() {
@@ -268,7 +274,11 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_outputs.len() > 1
         {
             self.outputs.push((
-                format!("({}*)(void*)&o->m_{}", change_primitive(ty), ident),
+                format!(
+                    "({}*)(void*)((char*)o + offsetof(struct {BO}, m_{}))",
+                    change_primitive(ty),
+                    ident
+                ),
                 change_primitive(ty).to_string(),
             ));
         } else {
@@ -285,7 +295,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_outputs.len() > 1
         {
             self.outputs.push((
-                format!("({}*)(void*)&o->m_{}", ty.ident, ident),
+                format!(
+                    "({}*)(void*)((char*)o + offsetof(struct {BO}, m_{}))",
+                    ty.ident, ident
+                ),
                 ty.ident.to_string(),
             ));
         } else {
@@ -301,7 +314,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_outputs.len() > 1
         {
             self.outputs.push((
-                format!("({}*)(void*)&o->m_{}", ty.ident, ident),
+                format!(
+                    "({}*)(void*)((char*)o + offsetof(struct {BO}, m_{}))",
+                    ty.ident, ident
+                ),
                 ty.ident.to_string(),
             ));
         } else {
diff --git a/idlc_codegen_c/src/interface/mod.rs b/idlc_codegen_c/src/interface/mod.rs
index 0717139..5456023 100644
--- a/idlc_codegen_c/src/interface/mod.rs
+++ b/idlc_codegen_c/src/interface/mod.rs
@@ -163,7 +163,7 @@ pub fn emit_interface_invoke(interface: &Interface, is_no_typed_objects: bool) -
         .then_some(format!(r#"typedef Object {ident};"#))
         .unwrap_or_default();
 
-    // weak_delcarations goes inside `func` to preserve the expected when the macro is instantiated
+    // weak_delcarations goes inside `_func` to preserve the expected when the macro is instantiated
     // with `static IFoo_DEFINE_INVOKE`. It is OK to declare functions within functions for C.
     format!(
         r#"{typed_objects}
@@ -177,25 +177,25 @@ pub fn emit_interface_invoke(interface: &Interface, is_no_typed_objects: bool) -
 #define __compiler_pragma_post
 #endif
 
-#define {ident}_DEFINE_INVOKE(func, prefix, type) \
-    int32_t func(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) \
+#define {ident}_DEFINE_INVOKE(_func, _prefix, _type) \
+    int32_t _func(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) \
     {{ \
         __compiler_pragma_pre \
         {weak_declarations} \
         __compiler_pragma_post \
-        type me = (type) h; \
+        _type me = (_type) h; \
         switch (ObjectOp_methodID(op)) {{ \
             case Object_OP_release: {{ \
                 if (k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
                     break; \
                 }} \
-                return prefix##release(me); \
+                return _prefix##release(me); \
             }} \
             case Object_OP_retain: {{ \
                 if (k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
                     break; \
                 }} \
-                return prefix##retain(me); \
+                return _prefix##retain(me); \
             }} \
             {invokes} \
         }} \
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index b7e5a03..cee61fb 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -3,7 +3,7 @@
 
 use idlc_mir::{Ident, Primitive, StructInner};
 
-use idlc_codegen_c::interface::variable_names::invoke::CONST;
+use idlc_codegen_c::interface::variable_names::invoke::{BI, BO, CONST};
 use idlc_codegen_c::types::change_primitive;
 
 #[derive(Debug, Clone, Default)]
@@ -119,7 +119,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("&{}_ref", ident), format!("{CONST} {}", ty.ident)));
         if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
             self.outputs.push((
-                format!("*({CONST} {}*)({CONST} void*)&i->m_{}", ty.ident, ident),
+                format!(
+                    "*({CONST} {}*)({CONST} void*)(({CONST} char*)i + offsetof(struct {BI}, m_{}))",
+                    ty.ident, ident
+                ),
                 format!("{CONST} {}", ty.ident),
             ));
         } else if ty.contains_interfaces() {
@@ -135,7 +138,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("&{}_ref", ident), format!("{CONST} {}", ty.ident)));
         if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
             self.outputs.push((
-                format!("*({CONST} {}*)({CONST} void*)&i->m_{}", ty.ident, ident),
+                format!(
+                    "*({CONST} {}*)({CONST} void*)(({CONST} char*)i + offsetof(struct {BI}, m_{}))",
+                    ty.ident, ident
+                ),
                 format!("{CONST} {}", ty.ident),
             ));
         } else if ty.contains_interfaces() {
@@ -218,7 +224,11 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
         if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
             self.outputs.push((
-                format!("({}*)(void*)&o->m_{}", change_primitive(ty), ident),
+                format!(
+                    "({}*)(void*)((char*)o + offsetof(struct {BO}, m_{}))",
+                    change_primitive(ty),
+                    ident
+                ),
                 change_primitive(ty).to_string(),
             ));
         } else {
@@ -232,7 +242,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("&{}_ref", ident), ty.ident.to_string()));
         if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
             self.outputs.push((
-                format!("*({}*)(void*)&o->m_{}", ty.ident, ident),
+                format!(
+                    "*({}*)(void*)((char*)o + offsetof(struct {BO}, m_{}))",
+                    ty.ident, ident
+                ),
                 ty.ident.to_string(),
             ));
         } else {
@@ -245,7 +258,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("&{}_ref", ident), ty.ident.to_string()));
         if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
             self.outputs.push((
-                format!("*({}*)(void*)&o->m_{}", ty.ident, ident),
+                format!(
+                    "*({}*)(void*)((char*)o + offsetof(struct {BO}, m_{}))",
+                    ty.ident, ident
+                ),
                 ty.ident.to_string(),
             ));
         } else {
-- 
2.43.0


From ce96e377ef5d101feb534741417961d45061c816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 38/43] fix: declare before use in C and C++ whatever the order
 in the file

---
 idlc_codegen/src/lib.rs                       |   1 +
 idlc_codegen/src/order.rs                     | 116 ++++++++++++++++++
 idlc_codegen_c/src/generator.rs               |  18 ++-
 idlc_codegen_cpp/src/generator.rs             |  20 ++-
 .../src/interface/functions/implementation.rs |  76 ++++++++++--
 idlc_codegen_cpp/src/interface/mod.rs         |  40 ++++--
 6 files changed, 245 insertions(+), 26 deletions(-)
 create mode 100644 idlc_codegen/src/order.rs

diff --git a/idlc_codegen/src/lib.rs b/idlc_codegen/src/lib.rs
index 43b40af..9bb04af 100644
--- a/idlc_codegen/src/lib.rs
+++ b/idlc_codegen/src/lib.rs
@@ -5,6 +5,7 @@ pub mod counts;
 pub mod documentation;
 pub mod functions;
 pub mod marking;
+pub mod order;
 pub mod serialization;
 
 // TODO: Remove this when we indeed start banning idents matching reserved keywords
diff --git a/idlc_codegen/src/order.rs b/idlc_codegen/src/order.rs
new file mode 100644
index 0000000..3f1c60b
--- /dev/null
+++ b/idlc_codegen/src/order.rs
@@ -0,0 +1,116 @@
+// Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
+// SPDX-License-Identifier: BSD-3-Clause
+
+//! Orders the declarations of a file for languages which need to see a
+//! declaration before its uses. IDL allows any order.
+
+use std::collections::{HashMap, HashSet};
+
+use idlc_mir::{Function, Interface, InterfaceNode, Mir, Node, StructInner, Type};
+
+/// Nodes of `mir` in declaration order, except that the structs and the base
+/// interfaces which a node needs come before it.
+pub fn declaration_order(mir: &Mir) -> Vec<&Node> {
+    let mut order = Order {
+        named: HashMap::new(),
+        seen: HashSet::new(),
+        nodes: Vec::new(),
+    };
+    for node in &mir.nodes {
+        match node.as_ref() {
+            Node::Struct(s) => {
+                order.named.insert(s.as_ref().ident.as_ref(), node);
+            }
+            Node::Interface(i) => {
+                order.named.insert(i.ident.as_ref(), node);
+            }
+            Node::Include(_) | Node::Const(_) => (),
+        }
+    }
+    for node in &mir.nodes {
+        order.visit(node);
+    }
+
+    order.nodes
+}
+
+/// Names of the interfaces among `nodes`.
+pub fn interface_idents<'a>(nodes: &'a [&Node]) -> impl Iterator<Item = &'a str> {
+    nodes.iter().filter_map(|node| match node {
+        Node::Interface(i) => Some(i.ident.as_ref()),
+        _ => None,
+    })
+}
+
+/// Interfaces that are named by the object parameters of `function`.
+pub fn object_types(function: &Function) -> impl Iterator<Item = &str> {
+    function
+        .params
+        .iter()
+        .filter_map(|param| match param.r#type() {
+            Type::Interface(Some(ident)) => Some(ident.as_str()),
+            _ => None,
+        })
+}
+
+/// Functions of `interface` and of the interfaces it extends.
+pub fn functions(interface: &Interface) -> impl Iterator<Item = &Function> {
+    interface
+        .iter()
+        .flat_map(|iface| &iface.nodes)
+        .filter_map(|node| match node {
+            InterfaceNode::Function(f) => Some(f),
+            _ => None,
+        })
+}
+
+struct Order<'a> {
+    named: HashMap<&'a str, &'a Node>,
+    seen: HashSet<*const Node>,
+    nodes: Vec<&'a Node>,
+}
+
+impl<'a> Order<'a> {
+    fn visit(&mut self, node: &'a Node) {
+        if !self.seen.insert(node) {
+            return;
+        }
+        match node {
+            Node::Struct(s) => self.visit_fields(s.as_ref()),
+            Node::Interface(i) => {
+                for base in i.iter().skip(1) {
+                    self.visit_named(&base.ident);
+                }
+                for ident in functions(i).flat_map(struct_types) {
+                    self.visit_named(ident);
+                }
+            }
+            Node::Include(_) | Node::Const(_) => (),
+        }
+        self.nodes.push(node);
+    }
+
+    fn visit_fields(&mut self, r#struct: &'a StructInner) {
+        for field in &r#struct.fields {
+            if let Type::Struct(s) = &field.val.0 {
+                self.visit_named(&s.as_ref().ident);
+            }
+        }
+    }
+
+    fn visit_named(&mut self, ident: &str) {
+        if let Some(node) = self.named.get(ident) {
+            self.visit(node);
+        }
+    }
+}
+
+fn struct_types(function: &Function) -> impl Iterator<Item = &str> {
+    function
+        .params
+        .iter()
+        .filter_map(|param| match param.r#type() {
+            Type::Struct(s) => Some(s.as_ref().ident.as_ref()),
+            _ => None,
+        })
+}
diff --git a/idlc_codegen_c/src/generator.rs b/idlc_codegen_c/src/generator.rs
index b34dbbb..3b9312f 100644
--- a/idlc_codegen_c/src/generator.rs
+++ b/idlc_codegen_c/src/generator.rs
@@ -1,8 +1,11 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+use std::collections::HashSet;
+
 use idlc_mir::Node;
 
+use idlc_codegen::order::{declaration_order, functions, interface_idents, object_types};
 use idlc_codegen::MINKIDL_HEADER_COMMENT;
 
 use crate::{
@@ -27,8 +30,11 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
         let mut result = String::new();
         result.push_str(&generate_common());
 
-        for node in &mir.nodes {
-            match node.as_ref() {
+        let nodes = declaration_order(mir);
+        let later: HashSet<&str> = interface_idents(&nodes).collect();
+        let mut declared: HashSet<&str> = HashSet::new();
+        for node in &nodes {
+            match node {
                 Node::Include(i) => {
                     result.push_str(&emit_include(i));
                 }
@@ -39,6 +45,14 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
                     result.push_str(&emit_struct(s.as_ref()));
                 }
                 Node::Interface(i) => {
+                    declared.insert(&i.ident);
+                    if !self.is_no_typed_objects {
+                        for ty in functions(i).flat_map(object_types) {
+                            if later.contains(ty) && declared.insert(ty) {
+                                result.push_str(&format!("typedef Object {ty};\n"));
+                            }
+                        }
+                    }
                     result.push_str(&emit_interface_impl(i, self.is_no_typed_objects));
                 }
             }
diff --git a/idlc_codegen_cpp/src/generator.rs b/idlc_codegen_cpp/src/generator.rs
index e457a6f..709dd54 100644
--- a/idlc_codegen_cpp/src/generator.rs
+++ b/idlc_codegen_cpp/src/generator.rs
@@ -1,12 +1,15 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+use std::collections::HashSet;
+
 use idlc_codegen_c::globals::emit_struct;
 use idlc_codegen_c::types::{change_primitive, const_value};
 use idlc_mir::Node;
 
 use crate::interface::{emit_interface_impl, emit_interface_invoke};
 
+use idlc_codegen::order::{declaration_order, functions, interface_idents, object_types};
 use idlc_codegen::MINKIDL_HEADER_COMMENT;
 pub struct Generator;
 
@@ -15,8 +18,12 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
         let mut result = String::new();
         result.push_str(&generate_common());
 
-        for node in &mir.nodes {
-            match node.as_ref() {
+        let nodes = declaration_order(mir);
+        let mut later: HashSet<&str> = interface_idents(&nodes).collect();
+        let mut declared: HashSet<&str> = HashSet::new();
+        let mut deferred = String::new();
+        for node in &nodes {
+            match node {
                 Node::Include(i) => {
                     let inc_name = i.display().to_string().replace(".idl", "");
                     result.push_str(&format!("#include \"{}.hpp\"\n", inc_name));
@@ -32,10 +39,17 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
                     result.push_str(&emit_struct(s.as_ref()));
                 }
                 Node::Interface(i) => {
-                    result.push_str(&emit_interface_impl(i));
+                    later.remove(i.ident.as_ref());
+                    for ty in functions(i).flat_map(object_types) {
+                        if later.contains(ty) && declared.insert(ty) {
+                            result.push_str(&format!("class {ty};\n"));
+                        }
+                    }
+                    result.push_str(&emit_interface_impl(i, &later, &mut deferred));
                 }
             }
         }
+        result.push_str(&deferred);
 
         result
     }
diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index 71b8578..70d1851 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -238,12 +238,69 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 }
 
+/// A function of a class, to be defined inside or outside of the class.
+#[derive(Debug, Clone)]
+pub struct Definition {
+    documentation: String,
+    ident: String,
+    params: String,
+    body: String,
+}
+
+impl Definition {
+    pub fn inline(&self) -> String {
+        let Self {
+            documentation,
+            ident,
+            params,
+            body,
+        } = self;
+        format!(
+            r#"
+{documentation}
+    virtual int32_t {ident}({params}) {{
+{body}    }}
+"#
+        )
+    }
+
+    pub fn declaration(&self) -> String {
+        let Self {
+            documentation,
+            ident,
+            params,
+            ..
+        } = self;
+        format!(
+            r#"
+{documentation}
+    virtual int32_t {ident}({params});
+"#
+        )
+    }
+
+    pub fn definition(&self, class: &str) -> String {
+        let Self {
+            ident,
+            params,
+            body,
+            ..
+        } = self;
+        format!(
+            r#"
+inline int32_t {class}::{ident}({params}) {{
+{body}}}
+"#
+        )
+    }
+}
+
 pub fn emit(
     function: &idlc_mir::Function,
     documentation: &str,
     counts: &idlc_codegen::counts::Counter,
     signature: &super::signature::Signature,
-) -> String {
+) -> Definition {
     let ident = &function.ident;
     let total = counts.total();
     let mut object_args = String::new();
@@ -284,16 +341,12 @@ pub fn emit(
         format!("ProxyBase::invoke({OP}_{ident}, 0, 0);")
     };
 
-    format!(
-        r#"
-{documentation}
-    virtual int32_t {ident}({params}) {{
-{0}{1}{2}
+    let body = format!(
+        r#"{0}{1}{2}
         int32_t result = {returns}
         if (Object_OK != result) {{ return result; }}
 {post_call_assignments}
         return result;
-    }}
 "#,
         if !initializations.is_empty() {
             format!("        {initializations}\n")
@@ -310,5 +363,12 @@ pub fn emit(
         } else {
             "".to_string()
         },
-    )
+    );
+
+    Definition {
+        documentation: documentation.to_string(),
+        ident: ident.to_string(),
+        params,
+        body,
+    }
 }
diff --git a/idlc_codegen_cpp/src/interface/mod.rs b/idlc_codegen_cpp/src/interface/mod.rs
index 06ffb06..0a1f221 100644
--- a/idlc_codegen_cpp/src/interface/mod.rs
+++ b/idlc_codegen_cpp/src/interface/mod.rs
@@ -1,6 +1,8 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+use std::collections::HashSet;
+
 use idlc_mir::{Interface, InterfaceNode};
 
 mod functions;
@@ -15,7 +17,15 @@ const fn const_qualifier(primitive: idlc_mir::Primitive) -> &'static str {
     }
 }
 
-pub fn emit_interface_impl(interface: &Interface) -> String {
+/// Emits the classes of `interface`.
+///
+/// The bodies of functions with objects of a class which is emitted `later` need
+/// that class to be complete, they are moved to `deferred`.
+pub fn emit_interface_impl(
+    interface: &Interface,
+    later: &HashSet<&str>,
+    deferred: &mut String,
+) -> String {
     let ident = interface.ident.to_string();
 
     let mut base_iface = String::new();
@@ -53,12 +63,14 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
                     idlc_codegen::documentation::DocumentationStyle::C,
                 );
 
-                implementations.push_str(&functions::implementation::emit(
-                    f,
-                    &documentation,
-                    &counts,
-                    &signature,
-                ));
+                let implementation =
+                    functions::implementation::emit(f, &documentation, &counts, &signature);
+                if idlc_codegen::order::object_types(f).any(|ty| later.contains(ty)) {
+                    implementations.push_str(&implementation.declaration());
+                    deferred.push_str(&implementation.definition(&ident));
+                } else {
+                    implementations.push_str(&implementation.inline());
+                }
             }
         })
     });
@@ -105,12 +117,14 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
     static const ObjectOp OP_{} = {};"#,
                     f.ident, f.id,
                 ));
-                implementations.push_str(&functions::implementation::emit(
-                    f,
-                    &documentation,
-                    &counts,
-                    &signature,
-                ));
+                let implementation =
+                    functions::implementation::emit(f, &documentation, &counts, &signature);
+                if idlc_codegen::order::object_types(f).any(|ty| later.contains(ty)) {
+                    implementations.push_str(&implementation.declaration());
+                    deferred.push_str(&implementation.definition(&ident));
+                } else {
+                    implementations.push_str(&implementation.inline());
+                }
             }
         }
     }
-- 
2.43.0


From ce7cf2c10f1a9bd2f9fd0179407a1ee5e2be669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 39/43] fix: keep bundles in skeletons warning-free under gcc

---
 idlc_codegen_c/src/interface/functions/invoke.rs |  8 +++++---
 .../src/interface/functions/signature.rs         | 16 +++++++++-------
 .../src/interface/functions/signature.rs         | 16 +++++++++-------
 3 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index 0ee6052..6be9eb0 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -2,7 +2,7 @@
 // SPDX-License-Identifier: BSD-3-Clause
 
 use crate::{
-    interface::variable_names::invoke::{ARGS, BI, BO, CONST, OP},
+    interface::variable_names::invoke::{ARGS, CONST, OP},
     types::change_primitive,
 };
 
@@ -148,7 +148,8 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         self.args.push(format!("{ARGS}[{idx}].b.size != {size}"));
         self.pre.push(format!(
             r#" \
-                {CONST} {definition} *i = (const struct {BI}*){ARGS}[{idx}].b.ptr;"#
+                {definition}; \
+                {CONST} char *i = ({CONST} char*){ARGS}[{idx}].b.ptr;"#
         ));
     }
 
@@ -342,7 +343,8 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         self.args.push(format!("{ARGS}[{idx}].b.size != {size}"));
         self.pre.push(format!(
             r#" \
-                {definition} *o = (struct {BO}*){ARGS}[{idx}].b.ptr;"#
+                {definition}; \
+                char *o = (char*){ARGS}[{idx}].b.ptr;"#
         ));
     }
 
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index defe890..851944f 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -142,8 +142,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_inputs.contains(&ident.to_string())
             && self.bundled_inputs.len() > 1
         {
-            self.outputs
-                .push((format!("i->m_{}", ident), change_primitive(ty).to_string()));
+            self.outputs.push((
+                format!("(({CONST} struct {BI}*)i)->m_{}", ident),
+                change_primitive(ty).to_string(),
+            ));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
@@ -159,7 +161,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         {
             self.outputs.push((
                 format!(
-                    "({CONST} {}*)({CONST} void*)(({CONST} char*)i + offsetof(struct {BI}, m_{}))",
+                    "({CONST} {}*)({CONST} void*)(i + offsetof(struct {BI}, m_{}))",
                     ty.ident, ident
                 ),
                 format!("{CONST} {}", ty.ident),
@@ -181,7 +183,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         {
             self.outputs.push((
                 format!(
-                    "({CONST} {}*)({CONST} void*)(({CONST} char*)i + offsetof(struct {BI}, m_{}))",
+                    "({CONST} {}*)({CONST} void*)(i + offsetof(struct {BI}, m_{}))",
                     ty.ident, ident
                 ),
                 format!("{CONST} {}", ty.ident),
@@ -275,7 +277,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         {
             self.outputs.push((
                 format!(
-                    "({}*)(void*)((char*)o + offsetof(struct {BO}, m_{}))",
+                    "({}*)(void*)(o + offsetof(struct {BO}, m_{}))",
                     change_primitive(ty),
                     ident
                 ),
@@ -296,7 +298,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         {
             self.outputs.push((
                 format!(
-                    "({}*)(void*)((char*)o + offsetof(struct {BO}, m_{}))",
+                    "({}*)(void*)(o + offsetof(struct {BO}, m_{}))",
                     ty.ident, ident
                 ),
                 ty.ident.to_string(),
@@ -315,7 +317,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         {
             self.outputs.push((
                 format!(
-                    "({}*)(void*)((char*)o + offsetof(struct {BO}, m_{}))",
+                    "({}*)(void*)(o + offsetof(struct {BO}, m_{}))",
                     ty.ident, ident
                 ),
                 ty.ident.to_string(),
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index cee61fb..8630d1b 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -106,8 +106,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs
             .push((format!("{}_val", ident), change_primitive(ty).to_string()));
         if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
-            self.outputs
-                .push((format!("i->m_{}", ident), change_primitive(ty).to_string()));
+            self.outputs.push((
+                format!("(({CONST} struct {BI}*)i)->m_{}", ident),
+                change_primitive(ty).to_string(),
+            ));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
@@ -120,7 +122,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
             self.outputs.push((
                 format!(
-                    "*({CONST} {}*)({CONST} void*)(({CONST} char*)i + offsetof(struct {BI}, m_{}))",
+                    "*({CONST} {}*)({CONST} void*)(i + offsetof(struct {BI}, m_{}))",
                     ty.ident, ident
                 ),
                 format!("{CONST} {}", ty.ident),
@@ -139,7 +141,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
             self.outputs.push((
                 format!(
-                    "*({CONST} {}*)({CONST} void*)(({CONST} char*)i + offsetof(struct {BI}, m_{}))",
+                    "*({CONST} {}*)({CONST} void*)(i + offsetof(struct {BI}, m_{}))",
                     ty.ident, ident
                 ),
                 format!("{CONST} {}", ty.ident),
@@ -225,7 +227,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
             self.outputs.push((
                 format!(
-                    "({}*)(void*)((char*)o + offsetof(struct {BO}, m_{}))",
+                    "({}*)(void*)(o + offsetof(struct {BO}, m_{}))",
                     change_primitive(ty),
                     ident
                 ),
@@ -243,7 +245,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
             self.outputs.push((
                 format!(
-                    "*({}*)(void*)((char*)o + offsetof(struct {BO}, m_{}))",
+                    "*({}*)(void*)(o + offsetof(struct {BO}, m_{}))",
                     ty.ident, ident
                 ),
                 ty.ident.to_string(),
@@ -259,7 +261,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
             self.outputs.push((
                 format!(
-                    "*({}*)(void*)((char*)o + offsetof(struct {BO}, m_{}))",
+                    "*({}*)(void*)(o + offsetof(struct {BO}, m_{}))",
                     ty.ident, ident
                 ),
                 ty.ident.to_string(),
-- 
2.43.0


From 4de0c83c38b6c7d9ae46fbdf7e477427df932cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 40/43] fix: call Rust implementations and conversions by their
 trait

---
 idlc_codegen_rust/src/interface/functions/invoke.rs | 3 ++-
 idlc_codegen_rust/src/interface/mod.rs              | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index 89d1de4..370a083 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -298,6 +298,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
 pub fn emit(
     function: &idlc_mir::Function,
+    iface_ident: &str,
     signature: &super::signature::Signature,
     counts: idlc_codegen::counts::Counter,
 ) -> String {
@@ -334,7 +335,7 @@ pub fn emit(
 
         {pre}
 
-        match (*{CONTEXT}).inner.lock().map_err(|_| std::mem::transmute({GENERIC_ERROR}::INVALID)).and_then(|mut _cx| (**_cx).r#{ident}({params})) {{
+        match (*{CONTEXT}).inner.lock().map_err(|_| std::mem::transmute({GENERIC_ERROR}::INVALID)).and_then(|mut _cx| <dyn I{iface_ident}>::r#{ident}(&mut **_cx, {params})) {{
             Ok(({returns})) => {{
                 {post}
                 {OK}
diff --git a/idlc_codegen_rust/src/interface/mod.rs b/idlc_codegen_rust/src/interface/mod.rs
index 03e5d5d..d7bf74a 100644
--- a/idlc_codegen_rust/src/interface/mod.rs
+++ b/idlc_codegen_rust/src/interface/mod.rs
@@ -41,7 +41,7 @@ pub fn emit(interface: &Interface) -> String {
                     counts,
                     &signature,
                 ));
-                invoke_arms.push(functions::invoke::emit(f, &signature, counts));
+                invoke_arms.push(functions::invoke::emit(f, ident, &signature, counts));
                 trait_functions.push(functions::traits::emit(f, &documentation, &signature));
             }
         }
@@ -63,6 +63,7 @@ pub fn emit(interface: &Interface) -> String {
                 let signature = functions::signature::Signature::new(f);
                 invoke_arms.push(functions::invoke::emit(
                     f,
+                    ident,
                     &signature,
                     idlc_codegen::counts::Counter::new(f),
                 ));
@@ -115,7 +116,7 @@ pub fn emit(interface: &Interface) -> String {
 
         #[inline]
         fn deref(&self) -> &Self::Target {{
-            self.as_ref()
+            AsRef::as_ref(self)
         }}
     }}
 
-- 
2.43.0


From 51254414e5cb65249a22eef5ba55c54882da4207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 41/43] fix: marshal structs, arrays and objects correctly in
 Java

Struct fields of array or struct type were never encoded or allocated,
arrays were sized in bytes instead of elements, object arrays ignored the
other objects of the call, and a refused argument fell out of the switch
as if it had succeeded.
---
 idlc_codegen_java/src/globals.rs              |  25 ++-
 .../src/interface/functions/implementation.rs | 122 ++++---------
 .../src/interface/functions/invoke.rs         | 167 ++++++++----------
 .../src/interface/functions/serialization.rs  |  72 ++++----
 .../src/interface/functions/signature.rs      |  33 ++--
 idlc_codegen_java/src/types.rs                |  60 +++++--
 6 files changed, 221 insertions(+), 258 deletions(-)

diff --git a/idlc_codegen_java/src/globals.rs b/idlc_codegen_java/src/globals.rs
index 956bf4c..8f883eb 100644
--- a/idlc_codegen_java/src/globals.rs
+++ b/idlc_codegen_java/src/globals.rs
@@ -20,16 +20,29 @@ pub fn emit_struct(r#struct: &StructInner) -> String {
             }
             _ => unreachable!(),
         };
-        contents.push_str(&if count == 1 {
-            format!(
+        let is_struct = matches!(&field.val.0, idlc_mir::Type::Struct(_));
+        contents.push_str(&match (count, is_struct) {
+            (1, false) => format!(
                 r#"public {ty} {ident};
         "#
-            )
-        } else {
-            format!(
+            ),
+            (1, true) => format!(
+                r#"public {ty} {ident} = new {ty}();
+        "#
+            ),
+            (_, false) => format!(
+                r#"public {ty}[] {ident}=new {ty}[{count}];
+        "#
+            ),
+            (_, true) => format!(
                 r#"public {ty}[] {ident}=new {ty}[{count}];
+        {{
+            for (int _i = 0; _i < {count}; _i++) {{
+                {ident}[_i] = new {ty}();
+            }}
+        }}
         "#
-            )
+            ),
         });
     }
 
diff --git a/idlc_codegen_java/src/interface/functions/implementation.rs b/idlc_codegen_java/src/interface/functions/implementation.rs
index 58af14d..72ffb6c 100644
--- a/idlc_codegen_java/src/interface/functions/implementation.rs
+++ b/idlc_codegen_java/src/interface/functions/implementation.rs
@@ -6,7 +6,7 @@ use idlc_mir::Ident;
 use crate::interface::mink_primitives::{
     BI, BO, BUNDLE_IN, BUNDLE_OUT, BYTE_BUFFER, BYTE_ORDER, OI, OO, OP_ID,
 };
-use crate::types::{capitalize_first_letter, change_primitive, get_struct_pair};
+use crate::types::{capitalize_first_letter, change_primitive, get_struct, put_struct};
 
 use super::serialization::TransportBuffer;
 
@@ -97,9 +97,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         };
         self.initializations.push(format!(
             r#"if({name} != null) {{
-                {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
-                buffer_{name}.{to_buffer}put({name});
-                {BI}[{bi_idx}] = buffer_{name}.array();
+                {BYTE_BUFFER} _buf_{name} = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
+                _buf_{name}.{to_buffer}put({name});
+                {BI}[{bi_idx}] = _buf_{name}.array();
             }}
             "#
         ));
@@ -118,46 +118,30 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bi_idx = self.bi_idx();
         let name = format!("{}_val", ident);
         let sz = ty.size();
-        let mut field_idents = Vec::new();
-        let mut buffer_in = String::new();
-
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            buffer_in.push_str(&format!(
-                r#"buffer_{name}.put{capitalized_ty}(i.{field_ident});
-                    "#
-            ));
-        }
+
+        let fields = put_struct(ty, &format!("_buf_{name}"), "_e");
 
         self.initializations.push(format!(
             r#"if({name} != null) {{
-                {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
-                for ({0} i : {name}) {{
-                    {buffer_in}
+                {BYTE_BUFFER} _buf_{name} = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
+                for ({0} _e : {name}) {{
+                    {fields}
                 }}
-                {BI}[{bi_idx}] = buffer_{name}.array();
+                {BI}[{bi_idx}] = _buf_{name}.array();
             }}
             "#,
             ty.ident
         ));
     }
 
-    fn visit_input_object_array(
-        &mut self,
-        ident: &Ident,
-        _ty: Option<&str>,
-        _cnt: idlc_mir::Count,
-    ) {
-        let _io_idx = self.io_idx();
+    fn visit_input_object_array(&mut self, ident: &Ident, _ty: Option<&str>, cnt: idlc_mir::Count) {
+        let io_idx = self.io_idx;
+        self.io_idx += usize::from(cnt.get());
         let name = format!("{}_val", ident);
         self.obj_arr_in = true;
         self.initializations.push(format!(
-            r#" for (int i=0; i<{name}.length; i++) {{
-                {OI}[i] = {name}[i];
+            r#" for (int _i=0; _i<{cnt}; _i++) {{
+                {OI}[{io_idx}+_i] = {name}[_i];
             }}
             "#,
         ));
@@ -198,24 +182,12 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bi_idx = self.bi_idx();
         let name = format!("{}_val", ident);
         let sz = ty.size();
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"buffer_{name}.put{capitalized_ty}({name}.{field_ident});
-            "#
-            ));
-        }
+        let fields = put_struct(ty, &format!("_buf_{name}"), &name);
 
         self.initializations.push(format!(
-            r#"{BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
+            r#"{BYTE_BUFFER} _buf_{name} = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
             {fields}
-            {BI}[{bi_idx}] = buffer_{name}.array();
+            {BI}[{bi_idx}] = _buf_{name}.array();
             "#
         ));
     }
@@ -280,21 +252,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let name = format!("{}_ptr", ident);
         let sz = ty.size();
 
-        let mut field_idents = Vec::new();
-        let mut buffer_in = String::new();
-
-        get_struct_pair(ty, &mut field_idents, "".to_string());
+        let fields = get_struct(ty, &format!("_buf_{name}"), &format!("{name}[0][_i]"));
         let ty = ty.ident.to_string();
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            buffer_in.push_str(&format!(
-                r#"{name}[0][i].{field_ident} = buffer_{name}.get{capitalized_ty}();
-                    "#
-            ));
-        }
 
         self.initializations.push(format!(
             r#"boSizes[{bo_sz_idx}] = {ident}_len*{sz};
@@ -304,9 +263,10 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             r#"if({name} != null) {{
                 int {ident}_lenout = Math.min({BO}[{bo_idx}].length/{sz}, {ident}_len);
                 {name}[0] = new {ty}[{ident}_lenout];
-                {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
-                for (int i=0;i<{ident}_len;i++) {{
-                    {buffer_in}
+                {BYTE_BUFFER} _buf_{name} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
+                for (int _i=0;_i<{ident}_lenout;_i++) {{
+                    {name}[0][_i] = new {ty}();
+                    {fields}
                 }}
             }}
             "#,
@@ -319,12 +279,16 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         _ty: Option<&str>,
         cnt: idlc_mir::Count,
     ) {
+        let oo_idx = self.oo_idx;
+        self.oo_idx += usize::from(cnt.get());
         let name = format!("{}_ptr", ident);
         self.obj_arr_out = true;
         self.post_call.push(format!(
-            r#"
-            for (int i=0;i<{cnt};i++) {{
-                {name}[0][i] = {OO}[i];
+            r#"if({name} != null) {{
+                {name}[0] = new IMinkObject[{cnt}];
+                for (int _i=0;_i<{cnt};_i++) {{
+                    {name}[0][_i] = {OO}[{oo_idx}+_i];
+                }}
             }}
             "#,
         ));
@@ -341,10 +305,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             "#,
         ));
         self.post_call.push(format!(
-            r#"{BYTE_BUFFER} {BUNDLE_OUT};
-            {BUNDLE_OUT} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
-            if({name} != null) {{
-                {name}[0] = {BUNDLE_OUT}.get{ty}();
+            r#"if({name} != null) {{
+                {name}[0] = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER}).get{ty}();
             }}
             "#,
         ));
@@ -376,26 +338,16 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bo_sz_idx = self.bo_sz_idx();
         let name = format!("{}_ptr", ident);
         let sz = ty.size();
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"{name}[0].{field_ident} = {BUNDLE_OUT}.get{capitalized_ty}();
-                "#
-            ));
-        }
+        let fields = get_struct(ty, &format!("_buf_{name}"), &format!("{name}[0]"));
+        let ty = &ty.ident;
         self.initializations.push(format!(
             r#"boSizes[{bo_sz_idx}] = {sz};
             "#,
         ));
         self.post_call.push(format!(
-            r#"{BYTE_BUFFER} {BUNDLE_OUT} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
-            if ({name} != null) {{
+            r#"if ({name} != null) {{
+                {BYTE_BUFFER} _buf_{name} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
+                {name}[0] = new {ty}();
                 {fields}
             }}
             "#,
diff --git a/idlc_codegen_java/src/interface/functions/invoke.rs b/idlc_codegen_java/src/interface/functions/invoke.rs
index c8bdd39..23339a4 100644
--- a/idlc_codegen_java/src/interface/functions/invoke.rs
+++ b/idlc_codegen_java/src/interface/functions/invoke.rs
@@ -4,7 +4,7 @@
 use crate::interface::mink_primitives::{
     BI, BO, BUNDLE_IN, BUNDLE_OUT, BYTE_BUFFER, BYTE_ORDER, IMINK_OBJECT, OI, OO, OP_ID,
 };
-use crate::types::{capitalize_first_letter, change_primitive, get_struct_pair};
+use crate::types::{capitalize_first_letter, change_primitive, get_struct, put_struct};
 
 use super::serialization::TransportBuffer;
 
@@ -82,6 +82,7 @@ impl Invoke {
 impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_input_primitive_buffer(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
         let bi_idx = self.bi_idx();
+        let sz = ty.size();
         let ty = change_primitive(ty);
         let capitalized_ty = capitalize_first_letter(ty);
         let to_buffer = if !capitalized_ty.is_empty() {
@@ -91,31 +92,30 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         };
 
         self.pre.push(format!(
-            r#"{ty}[] {ident} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).{to_buffer}array();
+            r#"{ty}[] {ident}_val = null;
+                    if ({BI}[{bi_idx}] != null) {{
+                        {ident}_val = new {ty}[{BI}[{bi_idx}].length/{sz}];
+                        {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).{to_buffer}get({ident}_val);
+                    }}
                     "#
         ));
     }
 
     fn visit_input_struct_buffer(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
         let bi_idx = self.bi_idx();
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"{ident}[0].{field_ident}={BUNDLE_IN}{bi_idx}.get{capitalized_ty}();
-                    "#
-            ));
-        }
+        let sz = ty.size();
+        let fields = get_struct(ty, &format!("_buf_{ident}"), &format!("{ident}_val[_i]"));
         let ty = ty.ident.to_string();
         self.pre.push(format!(
-            r#"{ty}[] {ident} = new {ty}[1];
-                    {BYTE_BUFFER} {BUNDLE_IN}{bi_idx} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
-                    {fields}
+            r#"{ty}[] {ident}_val = null;
+                    if ({BI}[{bi_idx}] != null) {{
+                        {ident}_val = new {ty}[{BI}[{bi_idx}].length/{sz}];
+                        {BYTE_BUFFER} _buf_{ident} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
+                        for (int _i=0;_i<{ident}_val.length;_i++) {{
+                            {ident}_val[_i] = new {ty}();
+                            {fields}
+                        }}
+                    }}
                     "#
         ));
     }
@@ -124,12 +124,14 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         &mut self,
         ident: &idlc_mir::Ident,
         _ty: Option<&str>,
-        _cnt: idlc_mir::Count,
+        cnt: idlc_mir::Count,
     ) {
+        let io_idx = self.io_idx;
+        self.io_idx += usize::from(cnt.get());
         self.pre.push(format!(
-            r#"IMinkObject[] {ident}_val = new IMinkObject[{OI}.length];
-                    for (int i=0;i<{OI}.length;i++) {{
-                        {ident}_val[i] = {OI}[i];
+            r#"IMinkObject[] {ident}_val = new IMinkObject[{cnt}];
+                    for (int _i=0;_i<{cnt};_i++) {{
+                        {ident}_val[_i] = {OI}[{io_idx}+_i];
                     }}
                     "#
         ));
@@ -143,9 +145,9 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
         self.pre.push(format!(
             r#"if ({BI}[{bi_idx}].length != {sz}) {{
-                        break;
+                        throw new InvokeException({IMINK_OBJECT}.ERROR_INVALID);
                     }}
-                    {ty} {ident} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).get{capitalized_ty}();
+                    {ty} {ident}_val = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).get{capitalized_ty}();
                     "#
         ));
     }
@@ -161,7 +163,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bi_idx = self.bi_idx();
         self.pre.push(format!(
             r#"if ({BI}[{bi_idx}].length != {size}) {{
-                        break;
+                        throw new InvokeException({IMINK_OBJECT}.ERROR_INVALID);
                     }}
                     {BYTE_BUFFER} {BUNDLE_IN} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
                     {definition}
@@ -173,26 +175,14 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bi_idx = self.bi_idx();
         let sz = ty.size();
 
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"{ident}.{field_ident}={BUNDLE_IN}{bi_idx}.get{capitalized_ty}();
-                    "#
-            ));
-        }
+        let fields = get_struct(ty, &format!("_buf_{ident}"), &format!("{ident}_val"));
         let ty = ty.ident.to_string();
         self.pre.push(format!(
             r#"if ({BI}[{bi_idx}].length != {sz}) {{
-                        break;
+                        throw new InvokeException({IMINK_OBJECT}.ERROR_INVALID);
                     }}
-                    {ty} {ident} = new {ty}();
-                    {BYTE_BUFFER} {BUNDLE_IN}{bi_idx} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
+                    {ty} {ident}_val = new {ty}();
+                    {BYTE_BUFFER} _buf_{ident} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
                     {fields}
                     "#
         ));
@@ -206,8 +196,8 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let ty = IMINK_OBJECT.to_string();
 
         self.pre.push(format!(
-            r#"{ty} {ident};
-                    {ident} = {OI}[{io_idx}];
+            r#"{ty} {ident}_val;
+                    {ident}_val = {OI}[{io_idx}];
                     "#
         ));
     }
@@ -225,14 +215,17 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         };
 
         self.pre.push(format!(
-            r#"{ty}[][] {ident} = new {ty}[1][];
-                    int {ident}_len = boSizes[{bo_sz_idx}];
+            r#"{ty}[][] {ident}_ptr = new {ty}[1][];
+                    int {ident}_len = boSizes[{bo_sz_idx}]/{sz};
                     "#,
         ));
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({ident}.length*{sz}).order({BYTE_ORDER});
-                    buffer_{ident}.{to_buffer}put({ident}[0]);
-                    {BO}[{bo_idx}] = buffer_{ident}.array();
+            r#"{BO}[{bo_idx}] = new byte[0];
+                    if ({ident}_ptr[0] != null) {{
+                        {BYTE_BUFFER} _buf_{ident} = {BYTE_BUFFER}.allocate({ident}_ptr[0].length*{sz}).order({BYTE_ORDER});
+                        _buf_{ident}.{to_buffer}put({ident}_ptr[0]);
+                        {BO}[{bo_idx}] = _buf_{ident}.array();
+                    }}
                     "#,
         ));
     }
@@ -241,12 +234,12 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
         self.pre.push(format!(
-            r#"byte[][] {ident} = new byte[1][];
+            r#"byte[][] {ident}_ptr = new byte[1][];
                     int {ident}_len = boSizes[{bo_sz_idx}];
                     "#,
         ));
         self.post.push(format!(
-            r#"{BO}[{bo_idx}]={ident}[0];
+            r#"{BO}[{bo_idx}]={ident}_ptr[0];
                     "#,
         ));
     }
@@ -256,35 +249,25 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bo_sz_idx = self.bo_sz_idx();
         let sz = ty.size();
 
-        let mut field_idents = Vec::new();
-        let mut buffer_in = String::new();
-
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            buffer_in.push_str(&format!(
-                r#"buffer_{ident}.put{capitalized_ty}(i.{field_ident});
-                    "#
-            ));
-        }
+        let fields = put_struct(ty, &format!("_buf_{ident}"), "_e");
 
         let ty = ty.ident.to_string();
 
         self.pre.push(format!(
-            r#"{ty}[][] {ident} = new {ty}[1][];
-                    int {ident}_len = boSizes[{bo_sz_idx}];
+            r#"{ty}[][] {ident}_ptr = new {ty}[1][];
+                    int {ident}_len = boSizes[{bo_sz_idx}]/{sz};
                     "#,
         ));
 
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({ident}.length*{sz}).order({BYTE_ORDER});
-                    for ({ty} i : {ident}[0]) {{
-                        {buffer_in}
+            r#"{BO}[{bo_idx}] = new byte[0];
+                    if ({ident}_ptr[0] != null) {{
+                        {BYTE_BUFFER} _buf_{ident} = {BYTE_BUFFER}.allocate({ident}_ptr[0].length*{sz}).order({BYTE_ORDER});
+                        for ({ty} _e : {ident}_ptr[0]) {{
+                            {fields}
+                        }}
+                        {BO}[{bo_idx}] = _buf_{ident}.array();
                     }}
-                    {BO}[{bo_idx}] = buffer_{ident}.array();
                     "#,
         ));
     }
@@ -295,15 +278,17 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         _ty: Option<&str>,
         cnt: idlc_mir::Count,
     ) {
+        let oo_idx = self.oo_idx;
+        self.oo_idx += usize::from(cnt.get());
         let ty = IMINK_OBJECT.to_string();
         self.pre.push(format!(
-            r#"{ty}[][] {ident} = new {ty}[1][{OO}.length];
-                    int {ident}_len = oo.length;
+            r#"{ty}[][] {ident}_ptr = new {ty}[1][{cnt}];
+                    int {ident}_len = {cnt};
                     "#,
         ));
         self.post.push(format!(
-            r#"for (int i=0;i<{cnt};i++) {{
-                        oo[i] = {ident}[0][i];
+            r#"for (int _i=0;_i<{cnt};_i++) {{
+                        {OO}[{oo_idx}+_i] = {ident}_ptr[0][_i];
                     }}
                     "#
         ));
@@ -314,32 +299,20 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let bo_sz_idx = self.bo_sz_idx();
         let sz = ty.size();
 
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"buffer_{ident}.put{capitalized_ty}({ident}[0].{field_ident});
-                    "#
-            ));
-        }
+        let fields = put_struct(ty, &format!("_buf_{ident}"), &format!("{ident}_ptr[0]"));
         let ty = ty.ident.to_string();
 
         self.pre.push(format!(
             r#"if (boSizes[{bo_sz_idx}] != {sz}) {{
-                        break;
+                        throw new InvokeException({IMINK_OBJECT}.ERROR_INVALID);
                     }}
-                    {ty}[] {ident} = new {ty}[1];
+                    {ty}[] {ident}_ptr = {{ new {ty}() }};
                     "#,
         ));
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
+            r#"{BYTE_BUFFER} _buf_{ident} = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
                     {fields}
-                    {BO}[{bo_idx}] = buffer_{ident}.array();
+                    {BO}[{bo_idx}] = _buf_{ident}.array();
                     "#,
         ));
     }
@@ -356,13 +329,13 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
         self.pre.push(format!(
             r#"if (boSizes[{bo_sz_idx}] != {sz}) {{
-                        break;
+                        throw new InvokeException({IMINK_OBJECT}.ERROR_INVALID);
                     }}
-                    {ty}[] {ident} = new {ty}[1];
+                    {ty}[] {ident}_ptr = new {ty}[1];
                     "#,
         ));
         self.post.push(format!(
-            r#"{BO}[{bo_idx}] = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER}).put{capitalized_ty}({ident}[0]).array();
+            r#"{BO}[{bo_idx}] = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER}).put{capitalized_ty}({ident}_ptr[0]).array();
                     "#,
         ));
     }
@@ -382,7 +355,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
         self.pre.push(format!(
             r#"if (boSizes[{bo_sz_idx}] != {size}) {{
-                        break;
+                        throw new InvokeException({IMINK_OBJECT}.ERROR_INVALID);
                     }}
                     {bo_assignments}
                     "#,
@@ -399,11 +372,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let oo_idx = self.oo_idx();
         let ty = IMINK_OBJECT.to_string();
         self.pre.push(format!(
-            r#"{ty}[] {ident} = new {ty}[1];
+            r#"{ty}[] {ident}_ptr = new {ty}[1];
                     "#,
         ));
         self.post.push(format!(
-            r#"{OO}[{oo_idx}] = {ident}[0];
+            r#"{OO}[{oo_idx}] = {ident}_ptr[0];
                     "#
         ));
     }
diff --git a/idlc_codegen_java/src/interface/functions/serialization.rs b/idlc_codegen_java/src/interface/functions/serialization.rs
index 17854ab..2e6bd5e 100644
--- a/idlc_codegen_java/src/interface/functions/serialization.rs
+++ b/idlc_codegen_java/src/interface/functions/serialization.rs
@@ -5,7 +5,7 @@ use idlc_codegen::serialization::Type;
 
 use crate::interface::mink_primitives::{BUNDLE_IN, BUNDLE_OUT};
 
-use crate::types::{capitalize_first_letter, change_primitive, get_struct_pair};
+use crate::types::{capitalize_first_letter, change_primitive, get_struct, put_struct};
 
 #[derive(Debug, Clone)]
 pub struct TransportBuffer {
@@ -37,14 +37,14 @@ impl<'a> PackedPrimitives<'a> {
             &Type::Primitive(p) => {
                 let ty = change_primitive(p);
                 assignments += &format!(
-                    r#"{ty}[] {ident} = new {ty}[1];
+                    r#"{ty}[] {ident}_ptr = new {ty}[1];
                     "#
                 );
             }
             Type::SmallStruct(s) => {
                 let ty = s.ident.to_string();
                 assignments += &format!(
-                    r#"{ty}[] {ident} = new {ty}[1];
+                    r#"{ty}[] {ident}_ptr = {{ new {ty}() }};
                     "#
                 );
             }
@@ -81,12 +81,12 @@ impl<'a> PackedPrimitives<'a> {
                     if is_invoke {
                         if in_out == BUNDLE_IN {
                             fields.push_str(&format!(
-                                r#"{ty} {ident}={in_out}.get{capitalized_ty}();
+                                r#"{ty} {ident}_val={in_out}.get{capitalized_ty}();
                     "#
                             ));
                         } else {
                             fields.push_str(&format!(
-                                r#"{in_out}.put{capitalized_ty}({ident}[0]);
+                                r#"{in_out}.put{capitalized_ty}({ident}_ptr[0]);
                     "#
                             ));
                         }
@@ -97,53 +97,43 @@ impl<'a> PackedPrimitives<'a> {
                         ));
                     } else {
                         fields.push_str(&format!(
-                            r#"if ({ident}_ptr != null) {{
-                    {ident}_ptr[0] = {in_out}.get{capitalized_ty}();
+                            r#"{{
+                    {ty} _buf_{ident} = {in_out}.get{capitalized_ty}();
+                    if ({ident}_ptr != null) {{
+                        {ident}_ptr[0] = _buf_{ident};
+                    }}
                 }}
                 "#
                         ));
                     }
                 }
                 Type::SmallStruct(s) => {
-                    let mut field_idents = Vec::new();
                     let ty = s.ident.to_string();
-                    if is_invoke && in_out == BUNDLE_IN {
-                        fields.push_str(&format!(
-                            r#"{ty} {ident} = new {ty}();
+                    match (is_invoke, in_out == BUNDLE_IN) {
+                        (true, true) => fields.push_str(&format!(
+                            r#"{ty} {ident}_val = new {ty}();
+                    {}
                     "#,
-                        ));
-                    }
-                    get_struct_pair(s, &mut field_idents, "".to_string());
-                    for (field_ident, field_ty) in field_idents {
-                        let mut capitalized_ty = String::new();
-                        if let idlc_mir::Type::Primitive(p) = field_ty {
-                            capitalized_ty = capitalize_first_letter(change_primitive(p));
+                            get_struct(s, in_out, &format!("{ident}_val"))
+                        )),
+                        (true, false) => {
+                            fields.push_str(&put_struct(s, in_out, &format!("{ident}_ptr[0]")));
                         }
-                        if is_invoke {
-                            if in_out == BUNDLE_IN {
-                                fields.push_str(&format!(
-                                    r#"{ident}.{field_ident}={BUNDLE_IN}.get{capitalized_ty}();
-                    "#,
-                                ));
-                            } else {
-                                fields.push_str(&format!(
-                                    r#"{BUNDLE_OUT}.put{capitalized_ty}({ident}[0].{field_ident});
-                    "#,
-                                ));
-                            }
-                        } else if in_out == BUNDLE_IN {
-                            fields.push_str(&format!(
-                                r#"{in_out}.put{capitalized_ty}({ident}_val.{field_ident});
-            "#,
-                            ));
-                        } else {
-                            fields.push_str(&format!(
-                                r#"if ({ident}_ptr != null) {{
-                    {ident}_ptr[0].{field_ident} = {in_out}.get{capitalized_ty}();
+                        (false, true) => {
+                            fields.push_str(&put_struct(s, in_out, &format!("{ident}_val")));
+                        }
+                        // The fields have to be consumed even if nobody wants them.
+                        (false, false) => fields.push_str(&format!(
+                            r#"{{
+                    {ty} _buf_{ident} = new {ty}();
+                    {}
+                    if ({ident}_ptr != null) {{
+                        {ident}_ptr[0] = _buf_{ident};
+                    }}
                 }}
                 "#,
-                            ));
-                        }
+                            get_struct(s, in_out, &format!("_buf_{ident}"))
+                        )),
                     }
                 }
             };
diff --git a/idlc_codegen_java/src/interface/functions/signature.rs b/idlc_codegen_java/src/interface/functions/signature.rs
index 9b2246a..47b56eb 100644
--- a/idlc_codegen_java/src/interface/functions/signature.rs
+++ b/idlc_codegen_java/src/interface/functions/signature.rs
@@ -50,13 +50,14 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_input_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
         let ty = format!("{}[]", change_primitive(ty));
         self.inputs.push((format!("{}_val", ident), ty.to_string()));
-        self.returns.push((ident.to_string(), ty));
+        self.returns.push((format!("{}_val", ident), ty));
     }
 
     fn visit_input_struct_buffer(&mut self, ident: &Ident, ty: &StructInner) {
         let new_ty = format!("{}[]", ty.ident);
         self.inputs.push((format!("{}_val", ident), new_ty));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
+        self.returns
+            .push((format!("{}_val", ident), ty.ident.to_string()));
     }
 
     fn visit_input_object_array(
@@ -77,18 +78,20 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs
             .push((format!("{}_val", ident), change_primitive(ty).to_string()));
         self.returns
-            .push((ident.to_string(), change_primitive(ty).to_string()));
+            .push((format!("{}_val", ident), change_primitive(ty).to_string()));
     }
 
     fn visit_input_big_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("{}_val", ident), ty.ident.to_string()));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
+        self.returns
+            .push((format!("{}_val", ident), ty.ident.to_string()));
     }
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("{}_val", ident), ty.ident.to_string()));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
+        self.returns
+            .push((format!("{}_val", ident), ty.ident.to_string()));
     }
 
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
@@ -97,7 +100,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs
             .push((format!("{}_val", ident), IMINK_OBJECT.to_string()));
         self.returns
-            .push((ident.to_string(), IMINK_OBJECT.to_string()));
+            .push((format!("{}_val", ident), IMINK_OBJECT.to_string()));
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
@@ -105,7 +108,8 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((format!("{}_ptr", ident), ty.to_string()));
         self.inputs
             .push((format!("{}_len", ident), "int".to_string()));
-        self.returns.push((ident.to_string(), ty.to_string()));
+        self.returns
+            .push((format!("{}_ptr", ident), ty.to_string()));
         self.returns.push((format!("{}_len", ident), ty));
     }
 
@@ -114,7 +118,8 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((format!("{}_ptr", ident), new_ty));
         self.inputs
             .push((format!("{}_len", ident), "int".to_string()));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
+        self.returns
+            .push((format!("{}_ptr", ident), ty.ident.to_string()));
         self.returns
             .push((format!("{}_len", ident), ty.ident.to_string()));
     }
@@ -127,7 +132,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs
             .push((format!("{}_len", ident), "int".to_string()));
         self.returns
-            .push((ident.to_string(), IMINK_OBJECT.to_string()));
+            .push((format!("{}_ptr", ident), IMINK_OBJECT.to_string()));
         self.returns
             .push((format!("{}_len", ident), "int".to_string()));
     }
@@ -135,18 +140,20 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
         let ty = format!("{}[]", change_primitive(ty));
         self.inputs.push((format!("{}_ptr", ident), ty.to_string()));
-        self.returns.push((ident.to_string(), ty));
+        self.returns.push((format!("{}_ptr", ident), ty));
     }
 
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &StructInner) {
         let new_ty = format!("{}[]", ty.ident);
         self.inputs.push((format!("{}_ptr", ident), new_ty));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
+        self.returns
+            .push((format!("{}_ptr", ident), ty.ident.to_string()));
     }
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         let new_ty = format!("{}[]", ty.ident);
         self.inputs.push((format!("{}_ptr", ident), new_ty));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
+        self.returns
+            .push((format!("{}_ptr", ident), ty.ident.to_string()));
     }
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
@@ -155,6 +162,6 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         let ty = format!("{IMINK_OBJECT}[]");
         self.inputs.push((format!("{}_ptr", ident), ty));
         self.returns
-            .push((ident.to_string(), IMINK_OBJECT.to_string()));
+            .push((format!("{}_ptr", ident), IMINK_OBJECT.to_string()));
     }
 }
diff --git a/idlc_codegen_java/src/types.rs b/idlc_codegen_java/src/types.rs
index 683a74a..4987f21 100644
--- a/idlc_codegen_java/src/types.rs
+++ b/idlc_codegen_java/src/types.rs
@@ -51,27 +51,55 @@ pub fn capitalize_first_letter(s: &str) -> String {
     s.to_case(convert_case::Case::UpperCamel)
 }
 
-pub fn get_struct_pair(
+/// Statements which put the fields of the struct `expr` into `buffer`.
+pub fn put_struct(r#struct: &idlc_mir::StructInner, buffer: &str, expr: &str) -> String {
+    visit_fields(r#struct, expr, 0, &|field, ty| {
+        format!("{buffer}.put{}({field});", capitalize_first_letter(ty))
+    })
+}
+
+/// Statements which read the fields of the struct `expr` from `buffer`.
+pub fn get_struct(r#struct: &idlc_mir::StructInner, buffer: &str, expr: &str) -> String {
+    visit_fields(r#struct, expr, 0, &|field, ty| {
+        format!("{field} = {buffer}.get{}();", capitalize_first_letter(ty))
+    })
+}
+
+fn visit_fields(
     r#struct: &idlc_mir::StructInner,
-    result: &mut Vec<(String, idlc_mir::Type)>,
-    mut parent: String,
-) {
-    if !parent.is_empty() {
-        parent.push('.');
-    }
+    expr: &str,
+    depth: usize,
+    visit: &dyn Fn(&str, &str) -> String,
+) -> String {
+    const SEPARATOR: &str = "\n                    ";
+
+    let mut result = String::new();
     for field in &r#struct.fields {
-        match &field.val.0 {
-            idlc_mir::Type::Primitive(_) => {
-                result.push((format!("{parent}{}", field.ident), field.val.0.clone()))
-            }
-            idlc_mir::Type::Struct(idlc_mir::Struct::Big(s) | idlc_mir::Struct::Small(s)) => {
-                let new_parent = format!("{parent}{}", field.ident);
-                get_struct_pair(s, result, new_parent);
+        let (ty, count) = &field.val;
+        let mut field = format!("{expr}.{}", field.ident);
+        let is_array = count.get() > 1;
+        let index = format!("_i{depth}");
+        if is_array {
+            result.push_str(&format!(
+                "for (int {index} = 0; {index} < {count}; {index}++) {{{SEPARATOR}"
+            ));
+            field.push_str(&format!("[{index}]"));
+        }
+        match ty {
+            &idlc_mir::Type::Primitive(p) => result.push_str(&visit(&field, change_primitive(p))),
+            idlc_mir::Type::Struct(s) => {
+                result.push_str(visit_fields(s.as_ref(), &field, depth + 1, visit).trim_end());
             }
             idlc_mir::Type::Interface(_) => {
-                result.push((format!("{parent}{}", field.ident), field.val.0.clone()))
+                unimplemented!("Java codegen doesn't support objects in struct")
             }
-            _ => unreachable!(),
+            idlc_mir::Type::UntypedBuffer => unreachable!(),
+        }
+        result.push_str(SEPARATOR);
+        if is_array {
+            result.push_str(&format!("}}{SEPARATOR}"));
         }
     }
+
+    result
 }
-- 
2.43.0


From a69fe5ba5afea178c14e8f952dfc220c2a6ff519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 42/43] fix: refuse interfaces that share a Rust module, name
 Java includes by their file

Interface modules are named in lower case: the module of one interface
silently replaced that of another whose name differs only in case. Java
included files by their path instead of the name of their interface.
---
 idlc_codegen_java/src/generator.rs |  2 +-
 idlc_codegen_rust/src/generator.rs | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/idlc_codegen_java/src/generator.rs b/idlc_codegen_java/src/generator.rs
index 15d188a..eb9475e 100644
--- a/idlc_codegen_java/src/generator.rs
+++ b/idlc_codegen_java/src/generator.rs
@@ -31,7 +31,7 @@ package com.qualcomm.qti.mink;
         let mut includes = String::new();
         for node in &mir.nodes {
             if let Node::Include(i) = node.as_ref() {
-                let inc_name = i.display().to_string().replace(".idl", "");
+                let inc_name = i.file_stem().unwrap().to_str().unwrap();
                 includes.push_str(&format!("{inc_name},"));
             }
         }
diff --git a/idlc_codegen_rust/src/generator.rs b/idlc_codegen_rust/src/generator.rs
index b65a0f7..e89cea1 100644
--- a/idlc_codegen_rust/src/generator.rs
+++ b/idlc_codegen_rust/src/generator.rs
@@ -1,7 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use idlc_codegen::Descriptor;
 use idlc_mir::Node;
@@ -29,6 +29,7 @@ impl idlc_codegen::Generator for Generator {
         let mut interfaces = HashMap::new();
         let prologue = &format!("// {MINKIDL_HEADER_COMMENT}\n");
         interfaces.insert(base.clone(), prologue.to_owned());
+        let mut modules = HashSet::new();
 
         for node in &mir.nodes {
             match node.as_ref() {
@@ -52,6 +53,13 @@ impl idlc_codegen::Generator for Generator {
                     interface_content.push('\n');
                     interface_content.push_str(&emit(i));
                     let name = format!("{}.rs", i.ident.to_lowercase());
+                    // Modules are named in lower case, none may replace another one.
+                    if !modules.insert(name.clone()) {
+                        idlc_errors::unrecoverable!(
+                            "The name of interface `{}` differs from another one only in case, both need `{name}`",
+                            i.ident
+                        );
+                    }
                     if name == base.to_str().unwrap() {
                         interfaces
                             .get_mut(&base)
-- 
2.43.0


From 988bd0a773c6a60a9ff4991317d7dd769a980f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:10 +0000
Subject: [PATCH 43/43] fix: tell included files apart by their paths, not by
 how those print

---
 idlc_ast_passes/src/idl_store.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index 9fb3f6d..93fa6a6 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -27,7 +27,7 @@ pub struct IDLStore {
     symbols: RefCell<HashMap<Symbol, (Rc<Node>, PathBuf)>>,
     current: Option<PathBuf>,
     visited: HashSet<PathBuf>,
-    graph: Graph<String>,
+    graph: Graph<PathBuf>,
     include_paths: Vec<PathBuf>,
     allow_undefined_behavior: bool,
 }
@@ -47,10 +47,7 @@ impl Visitor<'_> for IDLStore {
     fn visit_include(&mut self, include: &'_ Path) {
         let current = self.current.take().unwrap();
         let cano_path = self.change_to_canonical(&current, include);
-        self.graph.add_edge(
-            current.clone().display().to_string(),
-            cano_path.display().to_string(),
-        );
+        self.graph.add_edge(current.clone(), cano_path.clone());
         if self.visited.insert(cano_path.clone()) {
             let inc_ast = self.get_or_insert(&cano_path);
             walk_all(self, &inc_ast);
@@ -148,7 +145,13 @@ impl IDLStore {
 
     fn check_includes(&mut self, ast: &'_ idlc_ast::Ast) -> Result<Vec<String>, crate::Error> {
         walk_all(self, ast);
-        self.graph.toposort().map_err(crate::Error::CyclicalInclude)
+        let display = |paths: Vec<PathBuf>| -> Vec<String> {
+            paths.iter().map(|p| p.display().to_string()).collect()
+        };
+        match self.graph.toposort() {
+            Ok(order) => Ok(display(order)),
+            Err(cycle) => Err(crate::Error::CyclicalInclude(display(cycle))),
+        }
     }
 
     #[inline]
-- 
2.43.0

