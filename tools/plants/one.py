CORE = ['atelier_core']
JS = ['atelier_core', 'atelier_json']
PLANTS = {
'c01-namespace-case': dict(property='C01', crates=CORE, needs='two namespaces that differ only in case',
 breaks='namespaces that order and hash as equal are not equal',
 edits=[('atelier-core/src/model/identity.rs', 'self.0.to_lowercase() == other.0.to_lowercase()', 'self.0 == other.0', 2)],
 main='''use atelier_core::model::NamespaceID;
use std::cmp::Ordering;
fn main() {
    let (a, b): (NamespaceID, NamespaceID) = ("aws.Api".parse().unwrap(), "aws.api".parse().unwrap());
    assert_eq!(a == b, a.cmp(&b) == Ordering::Equal);
    assert!(a == b);
}
'''),
'c02-member-underscore': dict(property='C02', crates=CORE, needs='a shape ID whose member name starts with an underscore',
 breaks='a valid shape ID is refused',
 edits=[('atelier-core/src/model/identity.rs', r'(\$(_*[[:alpha:]][_[[:alnum:]]]*))?', r'(\$([[:alpha:]][_[[:alnum:]]]*))?')],
 main='''use atelier_core::model::ShapeID;
use std::str::FromStr;
fn main() {
    let id = ShapeID::from_str("a.b#Shape$_member").unwrap();
    assert_eq!(id.to_string(), "a.b#Shape$_member");
}
'''),
'c04-array-set': dict(property='C04', crates=CORE, needs='metadata arrays of two models that share an element',
 breaks='merging metadata arrays drops elements of the second that the first has too',
 edits=[('atelier-core/src/model/mod.rs', 'self_array.extend(other_array.iter().cloned());', 'for other in other_array {\n                    if !self_array.contains(other) {\n                        self_array.push(other.clone());\n                    }\n                }')],
 main='''use atelier_core::model::{values::Value, Model};
fn main() {
    let mut m = Model::default();
    m.add_metadata("k".into(), Value::Array(vec![Value::from("a"), Value::from("b")])).unwrap();
    m.add_metadata("k".into(), Value::Array(vec![Value::from("b"), Value::from("c")])).unwrap();
    let v = m.metadata_value("k").unwrap().as_array().unwrap().len();
    assert_eq!(v, 4);
}
'''),
'c08-namespaces': dict(property='C08', crates=CORE, needs='a model with an unresolved shape in a namespace where nothing is defined',
 breaks='namespaces() names a namespace of which the model defines no shape',
 edits=[('atelier-core/src/model/mod.rs', 'self.shape_names().map(|id| id.namespace()).collect()', 'self.shapes.keys().map(|id| id.namespace()).collect()')],
 main='''use atelier_core::model::{shapes::{ShapeKind, Simple, TopLevelShape}, Model, ShapeID};
fn main() {
    let mut m = Model::default();
    m.add_shape(TopLevelShape::new(ShapeID::new_unchecked("a.b", "S", None), ShapeKind::Simple(Simple::Blob))).unwrap();
    m.add_shape(TopLevelShape::new(ShapeID::new_unchecked("c.d", "T", None), ShapeKind::Unresolved)).unwrap();
    assert_eq!(m.namespaces().len(), 1);
}
'''),
'c12-errors': dict(property='C12', crates=CORE, needs='an operation whose second error is a service, operation or resource',
 breaks='only the first error of an operation is validated',
 edits=[('atelier-core/src/action/validate/mod.rs', 'for target in operation.errors() {', 'for target in operation.errors().take(1) {')],
 main='''use atelier_core::action::{validate::{run_validation_actions, CorrectTypeReferences}, Validator};
use atelier_core::model::{shapes::*, Model, ShapeID};
fn id(n: &str) -> ShapeID { ShapeID::new_unchecked("a.b", n, None) }
fn main() {
    let mut m = Model::default();
    let mut o = Operation::default();
    o.append_errors(&[id("Good"), id("Bad")]);
    m.add_shape(TopLevelShape::new(id("Op"), ShapeKind::Operation(o))).unwrap();
    m.add_shape(TopLevelShape::new(id("Good"), ShapeKind::Structure(StructureOrUnion::default()))).unwrap();
    m.add_shape(TopLevelShape::new(id("Bad"), ShapeKind::Service(Service::new("1")))).unwrap();
    let mut v: Vec<Box<dyn Validator>> = vec![Box::new(CorrectTypeReferences::default())];
    assert_eq!(run_validation_actions(&mut v, &m, false).unwrap().len(), 1);
}
'''),
'c16-namespace-parts': dict(property='C16', crates=CORE, needs='an unwelcome term in a part of a namespace other than the last',
 breaks='only the last part of a namespace is looked at',
 edits=[('atelier-core/src/action/lint/mod.rs', 'for id in shape_id.namespace().split() {', 'if let Some(id) = shape_id.namespace().split().last() {')],
 main='''use atelier_core::action::{lint::{run_linter_actions, UnwelcomeTerms}, Linter};
use atelier_core::model::{shapes::*, Model, ShapeID};
fn main() {
    let mut m = Model::default();
    m.add_shape(TopLevelShape::new(ShapeID::new_unchecked("org.whitelist.api", "S", None), ShapeKind::Simple(Simple::Blob))).unwrap();
    let mut v: Vec<Box<dyn Linter>> = vec![Box::new(UnwelcomeTerms::default())];
    assert!(!run_linter_actions(&mut v, &m, false).unwrap().is_empty());
}
'''),
'c17-resource-list': dict(property='C17', crates=CORE, needs='a resource with both a list operation and collection operations',
 breaks='walk_model does not visit the collection operations of a resource that has a list operation',
 edits=[('atelier-core/src/model/visitor.rs', 'for target in body.collection_operations() {', 'for target in body\n                        .collection_operations()\n                        .filter(|_| body.list().is_none())\n                    {')],
 main='''use atelier_core::error::Error;
use atelier_core::model::shapes::*;
use atelier_core::model::visitor::*;
use atelier_core::model::{Identifier, Model, ShapeID};
use std::cell::RefCell;
struct M { seen: RefCell<usize> }
impl MemberVisitor for M {
    type Error = Error;
    fn member(&self, _: &ShapeID, _: &Identifier, _: &ShapeID, _: Option<&AppliedTraits>) -> Result<(), Error> {
        *self.seen.borrow_mut() += 1;
        Ok(())
    }
}
struct V { m: M }
impl ModelVisitor for V {
    type Error = Error;
    fn member_visitor(&self) -> Option<&dyn MemberVisitor<Error = Error>> { Some(&self.m) }
}
fn id(n: &str) -> ShapeID { ShapeID::new_unchecked("a.b", n, None) }
fn main() {
    let mut m = Model::default();
    let mut r = Resource::default();
    r.set_list(id("List"));
    r.append_collection_operations(&[id("C"), id("D")]);
    m.add_shape(TopLevelShape::new(id("R"), ShapeKind::Resource(r))).unwrap();
    let v = V { m: M { seen: RefCell::new(0) } };
    walk_model(&m, &v).unwrap();
    assert_eq!(*v.m.seen.borrow(), 3);
}
'''),
'j02-sparse': dict(property='J02', crates=JS, needs='a null element in an array value',
 breaks='the JSON writer leaves the nulls of an array out',
 edits=[('atelier-json/src/writer.rs', 'NodeValue::Array(v) => Value::Array(v.iter().map(|v| from_value(v)).collect()),', 'NodeValue::Array(v) => Value::Array(\n            v.iter()\n                .map(|v| from_value(v))\n                .filter(|v| !v.is_null())\n                .collect(),\n        ),')],
 main='''use atelier_core::io::{read_model_from_string, write_model_to_string};
use atelier_core::model::{values::Value, Model};
use atelier_json::{JsonReader, JsonWriter};
fn main() {
    let mut m = Model::default();
    let v = Value::Array(vec![Value::from(1i64), Value::None, Value::from(2i64)]);
    m.add_metadata("k".into(), v.clone()).unwrap();
    let t = write_model_to_string(&mut JsonWriter::default(), &m).unwrap();
    let n = read_model_from_string(&mut JsonReader::default(), t).unwrap();
    assert_eq!(n.metadata_value("k"), Some(&v));
}
'''),
'r01-underscore': dict(property='R01', crates=['atelier_core', 'atelier_rdf'], needs='a shape ID with an underscore',
 breaks='the URN of a shape with an underscore in its name is not read back',
 edits=[('atelier-rdf/src/urn.rs', "c.is_ascii_alphanumeric() || c == '_' || c == '.'", "c.is_ascii_alphanumeric() || c == '.'")],
 main='''use atelier_core::model::ShapeID;
use atelier_rdf::urn::{iri_to_shape, shape_to_iri};
fn main() {
    let id = ShapeID::new_unchecked("a.b", "Some_Shape", Some("m"));
    assert_eq!(iri_to_shape(shape_to_iri(&id)), Ok(id));
}
'''),
'a01-contains': dict(property='A01', crates=['atelier_core', 'atelier_assembler'], needs='an extension in upper case removed from the registry',
 breaks='remove ignores an extension given in upper case',
 edits=[('atelier-assembler/src/lib.rs', 'self.by_extension.remove(&extension.to_lowercase())', 'self.by_extension.remove(extension)')],
 main='''use atelier_assembler::FileTypeRegistry;
fn main() {
    let mut r = FileTypeRegistry::default();
    assert!(r.contains("JSON"));
    assert!(r.remove("JSON").is_some());
    assert!(!r.contains("json"));
}
'''),
'q01-document': dict(property='Q01', crates=['atelier_core', 'atelier_query'], needs='a query for the simple types of a model with a document shape',
 breaks='simpleType leaves document shapes out',
 edits=[('atelier-query/src/evaluate.rs', 'ShapeType::SimpleType => shape_body.is_simple(),', 'ShapeType::SimpleType => {\n            shape_body.is_simple() && !matches!(shape.body().as_simple().unwrap(), Simple::Document)\n        }')],
 main='''use atelier_core::model::selector::{Selector, SelectorExpression, ShapeType};
use atelier_core::model::{shapes::*, Model, ShapeID};
use atelier_query::{evaluate::query, Projection};
fn main() {
    let mut m = Model::default();
    m.add_shape(TopLevelShape::new(ShapeID::new_unchecked("a.b", "D", None), ShapeKind::Simple(Simple::Document))).unwrap();
    let s = Selector::from(vec![SelectorExpression::ShapeType(ShapeType::SimpleType)]);
    match query(&s, &m) {
        Projection::Shapes(s) => assert_eq!(s.len(), 1),
        _ => panic!(),
    }
}
'''),
}
