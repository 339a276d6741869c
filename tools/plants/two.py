CORE = ['atelier_core']
HEAD = '''use atelier_core::model::{shapes::*, values::*, *};
fn id(n: &str) -> ShapeID { ShapeID::new_unchecked("a.b", n, None) }
fn shape(n: &str, k: ShapeKind) -> TopLevelShape { TopLevelShape::new(id(n), k) }
'''
PLANTS = {
's02-null-element': dict(property='S02', crates=['atelier_core', 'atelier_smithy'], needs='an IDL array value with a null element',
 breaks='the null elements of an array are dropped',
 edits=[('atelier-smithy/src/parser/smithy.rs', 'Rule::node_value => array.push(parse_node_value(inner)?),', 'Rule::node_value => match parse_node_value(inner)? {\n                NodeValue::None => {}\n                value => array.push(value),\n            },')],
 main='''use atelier_core::io::read_model_from_string;
use atelier_smithy::SmithyReader;
fn main() {
    let m = read_model_from_string(&mut SmithyReader::default(), "metadata k = [1, null, 2]\\nnamespace a.b\\n").unwrap();
    assert_eq!(m.metadata_value("k").unwrap().as_array().unwrap().len(), 3);
}
'''),
's03-array-objects': dict(property='S03', crates=['atelier_core', 'atelier_smithy'], needs='a trait whose value is an array of objects',
 breaks='objects in the array of a trait value are written without their braces',
 edits=[('atelier-smithy/src/writer.rs', 'self.write_value(w, v, false)?;\n                    if i < last {\n                        write!(w, ", ")?;\n                    }\n                }\n                write!(w, "]")?;', 'self.write_value(w, v, top)?;\n                    if i < last {\n                        write!(w, ", ")?;\n                    }\n                }\n                write!(w, "]")?;')],
 main=HEAD + '''use atelier_core::io::{read_model_from_string, write_model_to_string};
use atelier_smithy::{SmithyReader, SmithyWriter};
fn main() {
    let mut m = Model::default();
    let mut s = shape("S", ShapeKind::Simple(Simple::Blob));
    let mut o = ValueMap::default();
    o.insert("k".to_string(), Value::from(1i64));
    s.apply_with_value(id("t"), Some(Value::Array(vec![Value::Object(o)]))).unwrap();
    m.add_shape(s).unwrap();
    let mut t = shape("t", ShapeKind::Simple(Simple::Blob));
    t.apply_with_value("smithy.api#trait".parse().unwrap(), Some(Value::Object(Default::default()))).unwrap();
    m.add_shape(t).unwrap();
    let text = write_model_to_string(&mut SmithyWriter::new("a.b".parse().unwrap()), &m).unwrap();
    let n = read_model_from_string(&mut SmithyReader::default(), &text).unwrap();
    assert_eq!(n.shape(&id("S")), m.shape(&id("S")), "{}", text);
}
'''),
's04-insensitive': dict(property='S04', crates=['atelier_core', 'atelier_smithy'], needs='a scoped attribute assertion with the i flag and more than one value',
 breaks='the case flag of an assertion with several values is lost',
 edits=[('atelier-smithy/src/parser/selector.rs', 'case_insensitive = true;', 'case_insensitive = values.len() < 2;', 2)],
 main='''use atelier_smithy::parse_selector;
fn main() {
    let a = parse_selector("[@trait|range: @{min} = 1, 2]").unwrap();
    let b = parse_selector("[@trait|range: @{min} = 1, 2 i]").unwrap();
    assert!(a != b);
}
'''),
's05-key': dict(property='S05', crates=['atelier_core', 'atelier_smithy'], needs='an attribute selector whose shape ID value is absolute',
 breaks='an absolute shape ID makes the parser panic',
 edits=[('atelier-smithy/src/parser/selector.rs', 'Rule::absolute_root_shape_id => Ok(Value::AbsoluteRootShapeIdentifier(\n                    ShapeID::from_str(inner.as_str()).unwrap(),\n                )),', 'Rule::absolute_root_shape_id => {\n                    let parts: Vec<&str> = inner.as_str().split(\'.\').collect();\n                    Ok(Value::AbsoluteRootShapeIdentifier(\n                        ShapeID::from_str(&format!("{}.{}", parts[0], parts[1..].join(".").trim_start_matches(\'_\'))).unwrap(),\n                    ))\n                }')],
 main='''use atelier_smithy::parse_selector;
fn main() {
    assert!(parse_selector("[id = smithy.api#String]").is_ok());
    assert!(parse_selector("[id = smithy#String]").is_ok());
}
'''),
'd01-resources': dict(property='D01', crates=['atelier_core', 'atelier_describe'], needs='a service with a resource that the model does not define',
 breaks='the aggregation of a resource that is not defined in the model is left out',
 edits=[('atelier-describe/src/plant_uml/writer.rs', 'for resource in body.resources() {', 'for resource in body.resources().filter(|id| model.has_shape(id)) {')],
 main=HEAD + '''use atelier_core::io::write_model_to_string;
use atelier_describe::plant_uml::writer::PlantUmlWriter;
fn main() {
    let mut m = Model::default();
    let mut s = Service::new("1");
    s.add_resource(ShapeID::new_unchecked("c.d", "R", None));
    m.add_shape(shape("S", ShapeKind::Service(s))).unwrap();
    let text = write_model_to_string(&mut PlantUmlWriter::new(false), &m).unwrap();
    assert!(text.contains("a.b#S *-- c.d#R"), "{}", text);
}
'''),
'd02-edge-ids': dict(property='D02', crates=['atelier_core', 'atelier_describe'], needs='a shape with two traits',
 breaks='the edges of the traits of one shape have the same ID',
 edits=[('atelier-describe/src/graphml/writer.rs', 'for trait_id in traits.keys() {\n            let edge_id = Self::edge_id(&mut state);', 'let edge_id = Self::edge_id(&mut state);\n        for trait_id in traits.keys() {')],
 main=HEAD + '''use atelier_core::io::write_model_to_string;
use atelier_describe::graphml::writer::GraphMLWriter;
fn main() {
    let mut m = Model::default();
    let mut s = shape("S", ShapeKind::Simple(Simple::Blob));
    s.apply(id("t")).unwrap();
    s.apply(id("u")).unwrap();
    m.add_shape(s).unwrap();
    let text = write_model_to_string(&mut GraphMLWriter::default(), &m).unwrap();
    let mut ids: Vec<&str> = text.split("<edge id=\\"").skip(1).map(|t| t.split('"').next().unwrap()).collect();
    let n = ids.len();
    ids.sort();
    ids.dedup();
    assert_eq!(n, 2);
    assert_eq!(ids.len(), 2, "{}", text);
}
'''),
'd03-links': dict(property='D03', crates=['atelier_core', 'atelier_describe'], needs='a resource whose update operation is in its namespace and no other lifecycle operation is',
 breaks='the document of a resource names its put operation as update when it has both',
 edits=[('atelier-describe/src/document/writer.rs', 'if let Some(member) = shape.update() {', 'if let Some(member) = shape.update().as_ref().and(shape.put().as_ref()).or(shape.update().as_ref()) {')],
 main=HEAD + '''use atelier_core::io::write_model_to_string;
use atelier_describe::document::writer::DocumentationWriter;
fn main() {
    let mut m = Model::default();
    let mut r = Resource::default();
    r.set_put(ShapeID::new_unchecked("c.d", "Put", None));
    r.set_update(ShapeID::new_unchecked("c.d", "Up", None));
    m.add_shape(shape("R", ShapeKind::Resource(r))).unwrap();
    let text = write_model_to_string(&mut DocumentationWriter::default(), &m).unwrap();
    assert!(text.contains("c.d#Up"), "{}", text);
}
'''),
'r02-member-traits': dict(property='R02', crates=['atelier_core', 'atelier_rdf'], needs='a map whose value member has a trait',
 breaks='the members of a map: the key is written twice if the value has no traits',
 edits=[('atelier-rdf/src/writer.rs', 'from_member(&mut graph, subject.clone(), shape.value())?;', 'from_member(\n            &mut graph,\n            subject.clone(),\n            if shape.value().has_traits() {\n                shape.value()\n            } else {\n                shape.key()\n            },\n        )?;')],
 main=HEAD + '''use atelier_core::io::write_model_to_string;
use atelier_rdf::writer::RdfWriter;
fn main() {
    let mut m = Model::default();
    m.add_shape(shape("M", ShapeKind::Map(Map::new(id("K"), id("V"))))).unwrap();
    let text = write_model_to_string(&mut RdfWriter::default(), &m).unwrap();
    assert!(text.contains("a.b:V") || text.contains("a.b/V"), "{}", text);
}
'''),
'j03-null-member': dict(property='J03', crates=['atelier_core', 'atelier_json'], needs='a JSON object value with a null member',
 breaks='the null members of objects are dropped',
 edits=[('atelier-json/src/reader.rs', 'let _ = object.insert(k.clone(), self.value(v)?);', 'if !v.is_null() {\n                        let _ = object.insert(k.clone(), self.value(v)?);\n                    }')],
 main='''use atelier_core::io::read_model_from_string;
use atelier_json::JsonReader;
fn main() {
    let m = read_model_from_string(&mut JsonReader::default(), r#"{"smithy": "1.0", "metadata": {"k": {"a": null, "b": 1}}, "shapes": {}}"#).unwrap();
    assert_eq!(m.metadata_value("k").unwrap().as_object().unwrap().len(), 2);
}
'''),
'j01-rename': dict(property='J01', crates=['atelier_core', 'atelier_json'], needs='a service whose rename has a value that is not text',
 breaks='a rename that is not text makes the reader panic',
 edits=[('atelier-json/src/reader.rs', 'let value = Identifier::from_str(&self.string_value(obj)?)?;', 'let value = Identifier::from_str(obj.as_str().unwrap())?;')],
 main='''use atelier_core::io::read_model_from_string;
use atelier_json::JsonReader;
fn main() {
    let r = read_model_from_string(&mut JsonReader::default(), r#"{"smithy": "1.0", "shapes": {"a.b#S": {"type": "service", "version": "1", "rename": {"a.b#T": 1}}}}"#);
    assert!(r.is_err());
}
'''),
'c05-kept': dict(property='C05', crates=CORE, needs='a trait whose value is an array, applied again with a value that is not',
 breaks='a value that does not merge with an array removes the array',
 edits=[('atelier-core/src/model/shapes/mod.rs', 'let new_value = $crate::model::shapes::merge_traits(&id, &trait_value, &value)?;\n                    let _ = self.$field_name.insert(id, new_value);', 'let trait_value = trait_value.clone();\n                    if let Some($crate::model::values::Value::Array(_)) = trait_value {\n                        let _ = self.$field_name.remove(&id);\n                    }\n                    let new_value = $crate::model::shapes::merge_traits(&id, &trait_value, &value)?;\n                    let _ = self.$field_name.insert(id, new_value);')],
 main=HEAD + '''fn main() {
    let mut s = shape("S", ShapeKind::Simple(Simple::Blob));
    s.apply_with_value(id("t"), Some(Value::Array(vec![Value::from(1i64)]))).unwrap();
    assert!(s.apply_with_value(id("t"), Some(Value::from(2i64))).is_err());
    assert_eq!(s.trait_named(&id("t")), Some(&Some(Value::Array(vec![Value::from(1i64)]))));
}
'''),
'c06-resolve': dict(property='C06', crates=CORE, needs='a definition added after an unresolved entry that has traits which conflict with it',
 breaks='an unresolved shape with traits is not resolved by its definition',
 edits=[('atelier-core/src/model/mod.rs', 'existing.set_body(shape.body().clone());\n                    copy_traits(existing, &shape)?;', 'copy_traits(existing, &shape)?;\n                    if !existing.traits().keys().any(|id| id == shape.id()) {\n                        existing.set_body(shape.body().clone());\n                    }')],
 main=HEAD + '''fn main() {
    // a trait definition that is applied to itself
    let mut m = Model::default();
    let mut u = shape("t", ShapeKind::Unresolved);
    u.apply(id("t")).unwrap();
    m.add_shape(u).unwrap();
    m.add_shape(shape("t", ShapeKind::Simple(Simple::Blob))).unwrap();
    assert!(!m.shape(&id("t")).unwrap().is_unresolved());
}
'''),
'c09-trait-import': dict(property='C09', crates=CORE, needs='a name that is both imported and the name of a prelude trait, applied as a trait',
 breaks='a trait of the prelude wins over an imported shape of that name',
 edits=[('atelier-core/src/builder/mod.rs', '                match references.len() {\n                    1 => {', '                match references.len() {\n                    1 if !(is_trait && defined_prelude_traits().contains(&*local.to_string())) => {'), ('atelier-core/src/builder/mod.rs', '                    0 => {', '                    0 | 1 => {')],
 main='''use atelier_core::builder::{ModelBuilder, ShapeTraits, SimpleShapeBuilder, TraitBuilder};
use atelier_core::model::{shapes::{HasTraits, Simple}, Model, ShapeID};
use std::convert::TryInto;
fn main() {
    let mut b = ModelBuilder::new(Default::default(), "a.b");
    let _ = b.uses("c.d#sensitive");
    let mut s = SimpleShapeBuilder::new("S", Simple::Blob);
    let _ = s.apply_trait(TraitBuilder::new("sensitive"));
    let _ = b.simple_shape(s);
    let m: Model = b.try_into().unwrap();
    let s = m.shape(&ShapeID::new_unchecked("a.b", "S", None)).unwrap();
    assert!(s.has_trait(&ShapeID::new_unchecked("c.d", "sensitive", None)), "{:?}", s);
}
'''),
'c10-rename': dict(property='C10', crates=CORE, needs='a resource built with two identifiers that target one shape',
 breaks='the second identifier of a resource with the target of the first is dropped',
 edits=[('atelier-core/src/builder/mod.rs', 'let _ = resource.add_identifier(name.clone(), shape_id);', 'if !resource.identifiers().any(|(_, id)| *id == shape_id) {\n                let _ = resource.add_identifier(name.clone(), shape_id);\n            }')],
 main='''use atelier_core::builder::{ModelBuilder, ResourceBuilder};
use atelier_core::model::{Model, ShapeID};
use std::convert::TryInto;
fn main() {
    let mut b = ModelBuilder::new(Default::default(), "a.b");
    let mut r = ResourceBuilder::new("R");
    let _ = r.identifier("x", "String");
    let _ = r.identifier("y", "String");
    let _ = b.resource(r);
    let m: Model = b.try_into().unwrap();
    let r = m.shape(&ShapeID::new_unchecked("a.b", "R", None)).unwrap();
    assert_eq!(r.body().as_resource().unwrap().identifiers().count(), 2);
}
'''),
'c15-trait-shape': dict(property='C15', crates=CORE, needs='a misnamed trait applied to a member of a structure',
 breaks='the traits of a member whose name is wrong are not looked at',
 edits=[('atelier-core/src/action/lint/mod.rs', 'self.check_applied_trait_names(member.traits());', 'if !self.issues.iter().any(|issue| issue.locus().as_ref() == Some(shape.id())) {\n                            self.check_applied_trait_names(member.traits());\n                        }')],
 main=HEAD + '''use atelier_core::action::{lint::{run_linter_actions, NamingConventions}, Linter};
fn main() {
    let mut m = Model::default();
    let mut member = MemberShape::new("Wrong".parse().unwrap(), id("T"));
    member.apply(id("WrongToo")).unwrap();
    m.add_shape(shape("S", ShapeKind::Structure(StructureOrUnion::with_members(&[member])))).unwrap();
    let mut v: Vec<Box<dyn Linter>> = vec![Box::new(NamingConventions::default())];
    let n = run_linter_actions(&mut v, &m, false).unwrap();
    assert_eq!(n.len(), 2, "{:?}", n);
}
'''),
'a02-directory': dict(property='A02', crates=['atelier_core', 'atelier_json', 'atelier_assembler'], needs='a file with an extension in upper case inside a directory',
 breaks='files with an upper-case extension are not found',
 edits=[('atelier-assembler/src/lib.rs', 'if self.file_types.contains(extension.as_ref()) {', 'if self.file_types.extensions().any(|known| known.as_str() == extension.as_ref()) {')],
 main='''use atelier_assembler::ModelAssembler;
use atelier_core::model::Model;
use std::convert::TryFrom;
fn main() {
    let d = std::env::temp_dir().join(format!("a02-directory.{}", std::process::id()));
    std::fs::create_dir(&d).unwrap();
    std::fs::write(d.join("m.JSON"), r#"{"smithy": "1.0", "shapes": {"a.b#S": {"type": "blob"}}}"#).unwrap();
    let mut a = ModelAssembler::new(Default::default(), None);
    a.push(&d);
    let m = Model::try_from(a);
    std::fs::remove_dir_all(&d).unwrap();
    assert!(m.unwrap().has_shapes());
}
'''),
}
