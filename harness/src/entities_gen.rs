//! Written by tools/gen_models.py: the shapes as the harness knows them.
use crate::{
    entities::{activate, Act, Cell, Entity, Field, Node, Spec, Ty},
    models_gen as m,
};
use mysql_connector::{model::{ActiveReference, ActiveValue, HasActiveModel, UpdateModel}, types::Value};

impl Entity for m::Only {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "Only", table: "only", primary: "id", auto: true, fields: &[Field::Simple("id", Ty::U64, false)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.id.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { id: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.id = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::Leafy {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "Leafy", table: "leaf", primary: "id", auto: true, fields: &[Field::Simple("id", Ty::U32, false), Field::Simple("name", Ty::Text, false), Field::Simple("type", Ty::I32, true)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.id.put()), Node::Val(self.name.put()), Node::Val(self.r#type.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { id: Cell::get(n.next()?.val()?)?, name: Cell::get(n.next()?.val()?)?, r#type: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.id = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.name = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.r#type = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::LeafView {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "LeafView", table: "leaf", primary: "id", auto: true, fields: &[Field::Simple("type", Ty::I32, true), Field::Simple("id", Ty::U32, false)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.r#type.put()), Node::Val(self.id.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { r#type: Cell::get(n.next()?.val()?)?, id: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.r#type = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.id = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::Words {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "Words", table: "order", primary: "key", auto: false, fields: &[Field::Simple("select", Ty::I32, true), Field::Simple("key", Ty::I16, false), Field::Simple("group", Ty::Text, true), Field::Simple("row", Ty::U8, true), Field::Simple("mapping", Ty::U16, true), Field::Simple("index", Ty::I64, true), Field::Simple("table", Ty::Bool, true), Field::Simple("column", Ty::F64, true), Field::Simple("values", Ty::U32, true), Field::Simple("conn", Ty::I8, true), Field::Simple("value", Ty::U64, true), Field::Simple("this", Ty::Hex, true)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.select.put()), Node::Val(self.key.put()), Node::Val(self.group.put()), Node::Val(self.row.put()), Node::Val(self.mapping.put()), Node::Val(self.index.put()), Node::Val(self.table.put()), Node::Val(self.column.put()), Node::Val(self.values.put()), Node::Val(self.conn.put()), Node::Val(self.value.put()), Node::Val(self.this.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { select: Cell::get(n.next()?.val()?)?, key: Cell::get(n.next()?.val()?)?, group: Cell::get(n.next()?.val()?)?, row: Cell::get(n.next()?.val()?)?, mapping: Cell::get(n.next()?.val()?)?, index: Cell::get(n.next()?.val()?)?, table: Cell::get(n.next()?.val()?)?, column: Cell::get(n.next()?.val()?)?, values: Cell::get(n.next()?.val()?)?, conn: Cell::get(n.next()?.val()?)?, value: Cell::get(n.next()?.val()?)?, this: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.select = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.key = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.group = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.row = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.mapping = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.index = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.table = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.column = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.values = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.conn = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.value = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.this = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::Every {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "Every", table: "every type", primary: "id", auto: false, fields: &[Field::Simple("id", Ty::I64, false), Field::Simple("f0", Ty::I8, false), Field::Simple("f1", Ty::I16, false), Field::Simple("f2", Ty::I32, false), Field::Simple("f3", Ty::I64, false), Field::Simple("f4", Ty::U8, false), Field::Simple("f5", Ty::U16, false), Field::Simple("f6", Ty::U32, false), Field::Simple("f7", Ty::U64, false), Field::Simple("f8", Ty::F32, false), Field::Simple("f9", Ty::F64, false), Field::Simple("f10", Ty::Bool, false), Field::Simple("f11", Ty::Text, false), Field::Simple("f12", Ty::Blob, false), Field::Simple("f13", Ty::Date, false), Field::Simple("f14", Ty::Datetime, false), Field::Simple("f15", Ty::Time, false), Field::Simple("f16", Ty::Hex, false)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.id.put()), Node::Val(self.f0.put()), Node::Val(self.f1.put()), Node::Val(self.f2.put()), Node::Val(self.f3.put()), Node::Val(self.f4.put()), Node::Val(self.f5.put()), Node::Val(self.f6.put()), Node::Val(self.f7.put()), Node::Val(self.f8.put()), Node::Val(self.f9.put()), Node::Val(self.f10.put()), Node::Val(self.f11.put()), Node::Val(self.f12.put()), Node::Val(self.f13.put()), Node::Val(self.f14.put()), Node::Val(self.f15.put()), Node::Val(self.f16.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { id: Cell::get(n.next()?.val()?)?, f0: Cell::get(n.next()?.val()?)?, f1: Cell::get(n.next()?.val()?)?, f2: Cell::get(n.next()?.val()?)?, f3: Cell::get(n.next()?.val()?)?, f4: Cell::get(n.next()?.val()?)?, f5: Cell::get(n.next()?.val()?)?, f6: Cell::get(n.next()?.val()?)?, f7: Cell::get(n.next()?.val()?)?, f8: Cell::get(n.next()?.val()?)?, f9: Cell::get(n.next()?.val()?)?, f10: Cell::get(n.next()?.val()?)?, f11: Cell::get(n.next()?.val()?)?, f12: Cell::get(n.next()?.val()?)?, f13: Cell::get(n.next()?.val()?)?, f14: Cell::get(n.next()?.val()?)?, f15: Cell::get(n.next()?.val()?)?, f16: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.id = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.f0 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.f1 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.f2 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.f3 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.f4 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.f5 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.f6 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.f7 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.f8 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.f9 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.f10 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.f11 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.f12 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.f13 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.f14 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.f15 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.f16 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::Maybe {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "Maybe", table: "Maybe", primary: "code", auto: false, fields: &[Field::Simple("m0", Ty::I8, true), Field::Simple("m1", Ty::I16, true), Field::Simple("m2", Ty::I32, true), Field::Simple("m3", Ty::I64, true), Field::Simple("m4", Ty::U8, true), Field::Simple("m5", Ty::U16, true), Field::Simple("m6", Ty::U32, true), Field::Simple("m7", Ty::U64, true), Field::Simple("m8", Ty::F32, true), Field::Simple("m9", Ty::F64, true), Field::Simple("m10", Ty::Bool, true), Field::Simple("m11", Ty::Text, true), Field::Simple("m12", Ty::Blob, true), Field::Simple("m13", Ty::Date, true), Field::Simple("m14", Ty::Datetime, true), Field::Simple("m15", Ty::Time, true), Field::Simple("m16", Ty::Hex, true), Field::Simple("code", Ty::U8, false)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.m0.put()), Node::Val(self.m1.put()), Node::Val(self.m2.put()), Node::Val(self.m3.put()), Node::Val(self.m4.put()), Node::Val(self.m5.put()), Node::Val(self.m6.put()), Node::Val(self.m7.put()), Node::Val(self.m8.put()), Node::Val(self.m9.put()), Node::Val(self.m10.put()), Node::Val(self.m11.put()), Node::Val(self.m12.put()), Node::Val(self.m13.put()), Node::Val(self.m14.put()), Node::Val(self.m15.put()), Node::Val(self.m16.put()), Node::Val(self.code.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { m0: Cell::get(n.next()?.val()?)?, m1: Cell::get(n.next()?.val()?)?, m2: Cell::get(n.next()?.val()?)?, m3: Cell::get(n.next()?.val()?)?, m4: Cell::get(n.next()?.val()?)?, m5: Cell::get(n.next()?.val()?)?, m6: Cell::get(n.next()?.val()?)?, m7: Cell::get(n.next()?.val()?)?, m8: Cell::get(n.next()?.val()?)?, m9: Cell::get(n.next()?.val()?)?, m10: Cell::get(n.next()?.val()?)?, m11: Cell::get(n.next()?.val()?)?, m12: Cell::get(n.next()?.val()?)?, m13: Cell::get(n.next()?.val()?)?, m14: Cell::get(n.next()?.val()?)?, m15: Cell::get(n.next()?.val()?)?, m16: Cell::get(n.next()?.val()?)?, code: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.m0 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.m1 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.m2 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.m3 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.m4 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.m5 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.m6 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.m7 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.m8 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.m9 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.m10 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.m11 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.m12 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.m13 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.m14 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.m15 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.m16 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.code = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::Structs {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "Structs", table: "structs", primary: "id", auto: true, fields: &[Field::Struct("pos", &[("pos_x", Ty::F32, false), ("pos_y", Ty::F32, false), ("pos_z", Ty::F32, false)]), Field::Simple("id", Ty::I32, false), Field::Struct("size", &[("size_x", Ty::F32, false), ("size_y", Ty::F32, false), ("size_z", Ty::F32, false)]), Field::Struct("price", &[("price_amount", Ty::I64, false), ("price_cur", Ty::Text, true)]), Field::Struct("span", &[("span_begin", Ty::Date, false), ("span_from", Ty::Date, true)]), Field::Struct("in", &[("in_type", Ty::U16, false)]), Field::Struct("swap", &[("swap_b", Ty::I32, false), ("swap_a", Ty::I32, false)])] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Struct(vec![self.pos.x.put(), self.pos.y.put(), self.pos.z.put()]), Node::Val(self.id.put()), Node::Struct(vec![self.size.x.put(), self.size.y.put(), self.size.z.put()]), Node::Struct(vec![self.price.amount.put(), self.price.currency.put()]), Node::Struct(vec![self.span.from.put(), self.span.to.put()]), Node::Struct(vec![self.r#in.r#type.put()]), Node::Struct(vec![self.swap.a.put(), self.swap.b.put()])]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { pos: { let mut v = n.next()?.cells()?; m::Vec3 { x: Cell::get(v.next()?)?, y: Cell::get(v.next()?)?, z: Cell::get(v.next()?)? } }, id: Cell::get(n.next()?.val()?)?, size: { let mut v = n.next()?.cells()?; m::Vec3 { x: Cell::get(v.next()?)?, y: Cell::get(v.next()?)?, z: Cell::get(v.next()?)? } }, price: { let mut v = n.next()?.cells()?; m::Money { amount: Cell::get(v.next()?)?, currency: Cell::get(v.next()?)? } }, span: { let mut v = n.next()?.cells()?; m::shapes::Span { from: Cell::get(v.next()?)?, to: Cell::get(v.next()?)? } }, r#in: { let mut v = n.next()?.cells()?; m::One { r#type: Cell::get(v.next()?)? } }, swap: { let mut v = n.next()?.cells()?; m::Swap { a: Cell::get(v.next()?)?, b: Cell::get(v.next()?)? } } })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Struct(v) => { let mut v = v.iter(); m.pos = ActiveValue::Set(m::Vec3 { x: Cell::get(v.next()?)?, y: Cell::get(v.next()?)?, z: Cell::get(v.next()?)? }) }, Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.id = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Struct(v) => { let mut v = v.iter(); m.size = ActiveValue::Set(m::Vec3 { x: Cell::get(v.next()?)?, y: Cell::get(v.next()?)?, z: Cell::get(v.next()?)? }) }, Act::Unset => (), _ => return None }
        match p.next()? { Act::Struct(v) => { let mut v = v.iter(); m.price = ActiveValue::Set(m::Money { amount: Cell::get(v.next()?)?, currency: Cell::get(v.next()?)? }) }, Act::Unset => (), _ => return None }
        match p.next()? { Act::Struct(v) => { let mut v = v.iter(); m.span = ActiveValue::Set(m::shapes::Span { from: Cell::get(v.next()?)?, to: Cell::get(v.next()?)? }) }, Act::Unset => (), _ => return None }
        match p.next()? { Act::Struct(v) => { let mut v = v.iter(); m.r#in = ActiveValue::Set(m::One { r#type: Cell::get(v.next()?)? }) }, Act::Unset => (), _ => return None }
        match p.next()? { Act::Struct(v) => { let mut v = v.iter(); m.swap = ActiveValue::Set(m::Swap { a: Cell::get(v.next()?)?, b: Cell::get(v.next()?)? }) }, Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::Timed {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "Timed", table: "timed", primary: "after", auto: false, fields: &[Field::Simple("after", Ty::Time, false), Field::Simple("note", Ty::Text, true), Field::Struct("price", &[("price_amount", Ty::I64, false), ("price_cur", Ty::Text, true)])] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.after.put()), Node::Val(self.note.put()), Node::Struct(vec![self.price.amount.put(), self.price.currency.put()])]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { after: Cell::get(n.next()?.val()?)?, note: Cell::get(n.next()?.val()?)?, price: { let mut v = n.next()?.cells()?; m::Money { amount: Cell::get(v.next()?)?, currency: Cell::get(v.next()?)? } } })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.after = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.note = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Struct(v) => { let mut v = v.iter(); m.price = ActiveValue::Set(m::Money { amount: Cell::get(v.next()?)?, currency: Cell::get(v.next()?)? }) }, Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::Float {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "Float", table: "float", primary: "size", auto: false, fields: &[Field::Simple("label", Ty::Text, true), Field::Simple("size", Ty::F64, false)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.label.put()), Node::Val(self.size.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { label: Cell::get(n.next()?.val()?)?, size: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.label = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.size = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::Middle {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "Middle", table: "mid", primary: "key", auto: false, fields: &[Field::Simple("name", Ty::Text, false), Field::Simple("key", Ty::U64, false), Field::Ref("leaf", <m::Leafy as Entity>::spec), Field::Struct("pos", &[("pos_x", Ty::F32, false), ("pos_y", Ty::F32, false), ("pos_z", Ty::F32, false)]), Field::Ref("other", <m::Leafy as Entity>::spec)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.name.put()), Node::Val(self.key.put()), Node::Ref(self.leaf.dump()), Node::Struct(vec![self.pos.x.put(), self.pos.y.put(), self.pos.z.put()]), Node::Ref(self.other.dump())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { name: Cell::get(n.next()?.val()?)?, key: Cell::get(n.next()?.val()?)?, leaf: Entity::build(n.next()?.nodes()?)?, pos: { let mut v = n.next()?.cells()?; m::Vec3 { x: Cell::get(v.next()?)?, y: Cell::get(v.next()?)?, z: Cell::get(v.next()?)? } }, other: Entity::build(n.next()?.nodes()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.name = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.key = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.leaf = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.leaf = ActiveReference::Insert(activate::<m::Leafy>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Struct(v) => { let mut v = v.iter(); m.pos = ActiveValue::Set(m::Vec3 { x: Cell::get(v.next()?)?, y: Cell::get(v.next()?)?, z: Cell::get(v.next()?)? }) }, Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.other = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.other = ActiveReference::Insert(activate::<m::Leafy>(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::Rooty {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "Rooty", table: "root", primary: "id", auto: true, fields: &[Field::Ref("mid", <m::Middle as Entity>::spec), Field::Simple("id", Ty::U32, false), Field::Struct("pos", &[("pos_x", Ty::F32, false), ("pos_y", Ty::F32, false), ("pos_z", Ty::F32, false)]), Field::Ref("twin", <m::Middle as Entity>::spec), Field::Simple("name", Ty::Text, false), Field::Ref("leaf", <m::Leafy as Entity>::spec), Field::Struct("extra", &[("extra_amount", Ty::I64, false), ("extra_cur", Ty::Text, true)]), Field::Struct("size", &[("size_x", Ty::F32, false), ("size_y", Ty::F32, false), ("size_z", Ty::F32, false)])] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Ref(self.mid.dump()), Node::Val(self.id.put()), Node::Struct(vec![self.pos.x.put(), self.pos.y.put(), self.pos.z.put()]), Node::Ref(self.twin.dump()), Node::Val(self.name.put()), Node::Ref(self.leaf.dump()), Node::Struct(vec![self.extra.amount.put(), self.extra.currency.put()]), Node::Struct(vec![self.size.x.put(), self.size.y.put(), self.size.z.put()])]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { mid: Entity::build(n.next()?.nodes()?)?, id: Cell::get(n.next()?.val()?)?, pos: { let mut v = n.next()?.cells()?; m::Vec3 { x: Cell::get(v.next()?)?, y: Cell::get(v.next()?)?, z: Cell::get(v.next()?)? } }, twin: Entity::build(n.next()?.nodes()?)?, name: Cell::get(n.next()?.val()?)?, leaf: Entity::build(n.next()?.nodes()?)?, extra: { let mut v = n.next()?.cells()?; m::Money { amount: Cell::get(v.next()?)?, currency: Cell::get(v.next()?)? } }, size: { let mut v = n.next()?.cells()?; m::Vec3 { x: Cell::get(v.next()?)?, y: Cell::get(v.next()?)?, z: Cell::get(v.next()?)? } } })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Key(v) => m.mid = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.mid = ActiveReference::Insert(activate::<m::Middle>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.id = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Struct(v) => { let mut v = v.iter(); m.pos = ActiveValue::Set(m::Vec3 { x: Cell::get(v.next()?)?, y: Cell::get(v.next()?)?, z: Cell::get(v.next()?)? }) }, Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.twin = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.twin = ActiveReference::Insert(activate::<m::Middle>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.name = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.leaf = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.leaf = ActiveReference::Insert(activate::<m::Leafy>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Struct(v) => { let mut v = v.iter(); m.extra = ActiveValue::Set(m::Money { amount: Cell::get(v.next()?)?, currency: Cell::get(v.next()?)? }) }, Act::Unset => (), _ => return None }
        match p.next()? { Act::Struct(v) => { let mut v = v.iter(); m.size = ActiveValue::Set(m::Vec3 { x: Cell::get(v.next()?)?, y: Cell::get(v.next()?)?, z: Cell::get(v.next()?)? }) }, Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::Ringy {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "Ringy", table: "ring", primary: "id", auto: true, fields: &[Field::Simple("id", Ty::U64, false), Field::Ref("ring", <m::Leafy as Entity>::spec), Field::Ref("mid", <m::Leafy as Entity>::spec), Field::Ref("mid2", <m::Middle as Entity>::spec), Field::Ref("type", <m::LeafView as Entity>::spec), Field::Ref("leaf", <m::Only as Entity>::spec), Field::Ref("mi", <m::Only as Entity>::spec)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.id.put()), Node::Ref(self.ring.dump()), Node::Ref(self.mid.dump()), Node::Ref(self.mid2.dump()), Node::Ref(self.r#type.dump()), Node::Ref(self.leaf.dump()), Node::Ref(self.mi.dump())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { id: Cell::get(n.next()?.val()?)?, ring: Entity::build(n.next()?.nodes()?)?, mid: Entity::build(n.next()?.nodes()?)?, mid2: Entity::build(n.next()?.nodes()?)?, r#type: Entity::build(n.next()?.nodes()?)?, leaf: Entity::build(n.next()?.nodes()?)?, mi: Entity::build(n.next()?.nodes()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.id = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.ring = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.ring = ActiveReference::Insert(activate::<m::Leafy>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.mid = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.mid = ActiveReference::Insert(activate::<m::Leafy>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.mid2 = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.mid2 = ActiveReference::Insert(activate::<m::Middle>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.r#type = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.r#type = ActiveReference::Insert(activate::<m::LeafView>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.leaf = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.leaf = ActiveReference::Insert(activate::<m::Only>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.mi = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.mi = ActiveReference::Insert(activate::<m::Only>(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::Keys {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "Keys", table: "keys", primary: "id", auto: false, fields: &[Field::Ref("timed", <m::Timed as Entity>::spec), Field::Simple("id", Ty::I8, false), Field::Ref("float", <m::Float as Entity>::spec), Field::Ref("order", <m::Words as Entity>::spec)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Ref(self.timed.dump()), Node::Val(self.id.put()), Node::Ref(self.float.dump()), Node::Ref(self.order.dump())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { timed: Entity::build(n.next()?.nodes()?)?, id: Cell::get(n.next()?.val()?)?, float: Entity::build(n.next()?.nodes()?)?, order: Entity::build(n.next()?.nodes()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Key(v) => m.timed = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.timed = ActiveReference::Insert(activate::<m::Timed>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.id = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.float = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.float = ActiveReference::Insert(activate::<m::Float>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.order = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.order = ActiveReference::Insert(activate::<m::Words>(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::Refs {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "Refs", table: "refs.with.dots", primary: "id", auto: true, fields: &[Field::Simple("id", Ty::I16, false), Field::Ref("only", <m::Only as Entity>::spec), Field::Ref("only_b", <m::Only as Entity>::spec)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.id.put()), Node::Ref(self.only.dump()), Node::Ref(self.only_b.dump())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { id: Cell::get(n.next()?.val()?)?, only: Entity::build(n.next()?.nodes()?)?, only_b: Entity::build(n.next()?.nodes()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.id = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.only = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.only = ActiveReference::Insert(activate::<m::Only>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.only_b = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.only_b = ActiveReference::Insert(activate::<m::Only>(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::Deep {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "Deep", table: "größe", primary: "nr", auto: true, fields: &[Field::Simple("nr", Ty::I64, false), Field::Ref("a", <m::Refs as Entity>::spec), Field::Ref("root", <m::Rooty as Entity>::spec)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.nr.put()), Node::Ref(self.a.dump()), Node::Ref(self.root.dump())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { nr: Cell::get(n.next()?.val()?)?, a: Entity::build(n.next()?.nodes()?)?, root: Entity::build(n.next()?.nodes()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.nr = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.a = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.a = ActiveReference::Insert(activate::<m::Refs>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.root = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.root = ActiveReference::Insert(activate::<m::Rooty>(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::Wide {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "Wide", table: "wide", primary: "id", auto: true, fields: &[Field::Simple("id", Ty::U32, false), Field::Simple("c00", Ty::Bool, true), Field::Simple("c01", Ty::F32, true), Field::Simple("c02", Ty::U8, true), Field::Simple("c03", Ty::Text, true), Field::Simple("c04", Ty::Text, true), Field::Simple("c05", Ty::Bool, true), Field::Simple("c06", Ty::I8, true), Field::Simple("c07", Ty::U64, true), Field::Simple("c08", Ty::F64, true), Field::Simple("c09", Ty::I64, true), Field::Simple("c10", Ty::I16, true), Field::Simple("c11", Ty::Date, true), Field::Simple("c12", Ty::Text, true), Field::Simple("c13", Ty::F64, true), Field::Simple("c14", Ty::I32, true), Field::Simple("c15", Ty::U16, true), Field::Simple("c16", Ty::I64, true), Field::Simple("c17", Ty::I8, true), Field::Simple("c18", Ty::U32, true), Field::Simple("c19", Ty::Bool, true), Field::Simple("c20", Ty::I8, true), Field::Simple("c21", Ty::U64, true), Field::Simple("c22", Ty::F64, true), Field::Simple("c23", Ty::F64, true), Field::Simple("c24", Ty::Date, true), Field::Simple("c25", Ty::Blob, true), Field::Simple("c26", Ty::U32, true), Field::Simple("c27", Ty::Datetime, true), Field::Simple("c28", Ty::Text, true), Field::Simple("c29", Ty::Date, true), Field::Simple("c30", Ty::U64, true), Field::Simple("c31", Ty::I16, true), Field::Simple("c32", Ty::F32, true), Field::Simple("c33", Ty::Text, true), Field::Simple("c34", Ty::F32, true), Field::Simple("c35", Ty::Blob, true), Field::Simple("c36", Ty::U64, true), Field::Simple("c37", Ty::U32, true), Field::Simple("c38", Ty::U8, true), Field::Simple("c39", Ty::Date, true), Field::Simple("c40", Ty::I16, true), Field::Simple("c41", Ty::Blob, true), Field::Simple("c42", Ty::I8, true), Field::Simple("c43", Ty::Bool, true), Field::Simple("c44", Ty::Hex, true)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.id.put()), Node::Val(self.c00.put()), Node::Val(self.c01.put()), Node::Val(self.c02.put()), Node::Val(self.c03.put()), Node::Val(self.c04.put()), Node::Val(self.c05.put()), Node::Val(self.c06.put()), Node::Val(self.c07.put()), Node::Val(self.c08.put()), Node::Val(self.c09.put()), Node::Val(self.c10.put()), Node::Val(self.c11.put()), Node::Val(self.c12.put()), Node::Val(self.c13.put()), Node::Val(self.c14.put()), Node::Val(self.c15.put()), Node::Val(self.c16.put()), Node::Val(self.c17.put()), Node::Val(self.c18.put()), Node::Val(self.c19.put()), Node::Val(self.c20.put()), Node::Val(self.c21.put()), Node::Val(self.c22.put()), Node::Val(self.c23.put()), Node::Val(self.c24.put()), Node::Val(self.c25.put()), Node::Val(self.c26.put()), Node::Val(self.c27.put()), Node::Val(self.c28.put()), Node::Val(self.c29.put()), Node::Val(self.c30.put()), Node::Val(self.c31.put()), Node::Val(self.c32.put()), Node::Val(self.c33.put()), Node::Val(self.c34.put()), Node::Val(self.c35.put()), Node::Val(self.c36.put()), Node::Val(self.c37.put()), Node::Val(self.c38.put()), Node::Val(self.c39.put()), Node::Val(self.c40.put()), Node::Val(self.c41.put()), Node::Val(self.c42.put()), Node::Val(self.c43.put()), Node::Val(self.c44.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { id: Cell::get(n.next()?.val()?)?, c00: Cell::get(n.next()?.val()?)?, c01: Cell::get(n.next()?.val()?)?, c02: Cell::get(n.next()?.val()?)?, c03: Cell::get(n.next()?.val()?)?, c04: Cell::get(n.next()?.val()?)?, c05: Cell::get(n.next()?.val()?)?, c06: Cell::get(n.next()?.val()?)?, c07: Cell::get(n.next()?.val()?)?, c08: Cell::get(n.next()?.val()?)?, c09: Cell::get(n.next()?.val()?)?, c10: Cell::get(n.next()?.val()?)?, c11: Cell::get(n.next()?.val()?)?, c12: Cell::get(n.next()?.val()?)?, c13: Cell::get(n.next()?.val()?)?, c14: Cell::get(n.next()?.val()?)?, c15: Cell::get(n.next()?.val()?)?, c16: Cell::get(n.next()?.val()?)?, c17: Cell::get(n.next()?.val()?)?, c18: Cell::get(n.next()?.val()?)?, c19: Cell::get(n.next()?.val()?)?, c20: Cell::get(n.next()?.val()?)?, c21: Cell::get(n.next()?.val()?)?, c22: Cell::get(n.next()?.val()?)?, c23: Cell::get(n.next()?.val()?)?, c24: Cell::get(n.next()?.val()?)?, c25: Cell::get(n.next()?.val()?)?, c26: Cell::get(n.next()?.val()?)?, c27: Cell::get(n.next()?.val()?)?, c28: Cell::get(n.next()?.val()?)?, c29: Cell::get(n.next()?.val()?)?, c30: Cell::get(n.next()?.val()?)?, c31: Cell::get(n.next()?.val()?)?, c32: Cell::get(n.next()?.val()?)?, c33: Cell::get(n.next()?.val()?)?, c34: Cell::get(n.next()?.val()?)?, c35: Cell::get(n.next()?.val()?)?, c36: Cell::get(n.next()?.val()?)?, c37: Cell::get(n.next()?.val()?)?, c38: Cell::get(n.next()?.val()?)?, c39: Cell::get(n.next()?.val()?)?, c40: Cell::get(n.next()?.val()?)?, c41: Cell::get(n.next()?.val()?)?, c42: Cell::get(n.next()?.val()?)?, c43: Cell::get(n.next()?.val()?)?, c44: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.id = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c00 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c01 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c02 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c03 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c04 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c05 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c06 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c07 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c08 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c09 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c10 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c11 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c12 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c13 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c14 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c15 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c16 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c17 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c18 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c19 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c20 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c21 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c22 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c23 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c24 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c25 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c26 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c27 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c28 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c29 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c30 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c31 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c32 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c33 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c34 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c35 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c36 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c37 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c38 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c39 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c40 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c41 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c42 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c43 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.c44 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G00 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G00", table: "g-00", primary: "state", auto: false, fields: &[Field::Simple("state", Ty::U8, false)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.state.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { state: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.state = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G01 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G01", table: "t g01", primary: "from", auto: false, fields: &[Field::Simple("ab", Ty::U8, true), Field::Simple("from", Ty::I64, false)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.ab.put()), Node::Val(self.from.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { ab: Cell::get(n.next()?.val()?)?, from: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.ab = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.from = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G02 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G02", table: "g02.x", primary: "n0", auto: false, fields: &[Field::Simple("n0", Ty::U64, false), Field::Simple("to", Ty::Text, false)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.n0.put()), Node::Val(self.to.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { n0: Cell::get(n.next()?.val()?)?, to: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.n0 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.to = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G03 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G03", table: "g-03", primary: "y", auto: true, fields: &[Field::Simple("a", Ty::U8, true), Field::Simple("y", Ty::U16, false), Field::Ref("n1", <m::Maybe as Entity>::spec)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.a.put()), Node::Val(self.y.put()), Node::Ref(self.n1.dump())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { a: Cell::get(n.next()?.val()?)?, y: Cell::get(n.next()?.val()?)?, n1: Entity::build(n.next()?.nodes()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.a = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.y = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.n1 = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.n1 = ActiveReference::Insert(activate::<m::Maybe>(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G04 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G04", table: "g-04", primary: "id", auto: true, fields: &[Field::Simple("id", Ty::I32, false)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.id.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { id: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.id = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G05 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G05", table: "G05", primary: "id", auto: false, fields: &[Field::Simple("id", Ty::I16, false), Field::Ref("type", <m::Refs as Entity>::spec), Field::Struct("own", &[("own_x", Ty::F32, false), ("own_y", Ty::F32, false), ("own_z", Ty::F32, false)]), Field::Simple("to", Ty::Datetime, true), Field::Simple("state", Ty::I64, true)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.id.put()), Node::Ref(self.r#type.dump()), Node::Struct(vec![self.own.x.put(), self.own.y.put(), self.own.z.put()]), Node::Val(self.to.put()), Node::Val(self.state.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { id: Cell::get(n.next()?.val()?)?, r#type: Entity::build(n.next()?.nodes()?)?, own: { let mut v = n.next()?.cells()?; m::Vec3 { x: Cell::get(v.next()?)?, y: Cell::get(v.next()?)?, z: Cell::get(v.next()?)? } }, to: Cell::get(n.next()?.val()?)?, state: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.id = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.r#type = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.r#type = ActiveReference::Insert(activate::<m::Refs>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Struct(v) => { let mut v = v.iter(); m.own = ActiveValue::Set(m::Vec3 { x: Cell::get(v.next()?)?, y: Cell::get(v.next()?)?, z: Cell::get(v.next()?)? }) }, Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.to = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.state = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G06 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G06", table: "G06", primary: "owner", auto: true, fields: &[Field::Simple("größe", Ty::I32, false), Field::Simple("fn", Ty::U32, true), Field::Simple("owner", Ty::U16, false), Field::Struct("x_", &[("x__amount", Ty::I64, false), ("x__cur", Ty::Text, true)]), Field::Ref("desc", <m::G05 as Entity>::spec), Field::Simple("b", Ty::Hex, false), Field::Simple("n2", Ty::I64, false), Field::Simple("n1", Ty::I64, true), Field::Ref("own", <m::Keys as Entity>::spec), Field::Simple("key", Ty::Bool, true), Field::Simple("size", Ty::Hex, false)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.größe.put()), Node::Val(self.r#fn.put()), Node::Val(self.owner.put()), Node::Struct(vec![self.x_.amount.put(), self.x_.currency.put()]), Node::Ref(self.desc.dump()), Node::Val(self.b.put()), Node::Val(self.n2.put()), Node::Val(self.n1.put()), Node::Ref(self.own.dump()), Node::Val(self.key.put()), Node::Val(self.size.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { größe: Cell::get(n.next()?.val()?)?, r#fn: Cell::get(n.next()?.val()?)?, owner: Cell::get(n.next()?.val()?)?, x_: { let mut v = n.next()?.cells()?; m::Money { amount: Cell::get(v.next()?)?, currency: Cell::get(v.next()?)? } }, desc: Entity::build(n.next()?.nodes()?)?, b: Cell::get(n.next()?.val()?)?, n2: Cell::get(n.next()?.val()?)?, n1: Cell::get(n.next()?.val()?)?, own: Entity::build(n.next()?.nodes()?)?, key: Cell::get(n.next()?.val()?)?, size: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.größe = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.r#fn = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.owner = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Struct(v) => { let mut v = v.iter(); m.x_ = ActiveValue::Set(m::Money { amount: Cell::get(v.next()?)?, currency: Cell::get(v.next()?)? }) }, Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.desc = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.desc = ActiveReference::Insert(activate::<m::G05>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.b = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.n2 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.n1 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.own = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.own = ActiveReference::Insert(activate::<m::Keys>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.key = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.size = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G07 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G07", table: "t g07", primary: "n2", auto: true, fields: &[Field::Simple("map", Ty::I16, true), Field::Simple("limit", Ty::U32, true), Field::Simple("n2", Ty::I32, false)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.map.put()), Node::Val(self.limit.put()), Node::Val(self.n2.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { map: Cell::get(n.next()?.val()?)?, limit: Cell::get(n.next()?.val()?)?, n2: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.map = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.limit = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.n2 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G08 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G08", table: "g08.x", primary: "key", auto: true, fields: &[Field::Simple("key", Ty::I16, false), Field::Simple("size", Ty::I16, true), Field::Simple("a", Ty::Time, false)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.key.put()), Node::Val(self.size.put()), Node::Val(self.a.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { key: Cell::get(n.next()?.val()?)?, size: Cell::get(n.next()?.val()?)?, a: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.key = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.size = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.a = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G09 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G09", table: "G09", primary: "owner", auto: true, fields: &[Field::Simple("name", Ty::F32, true), Field::Simple("owner", Ty::U64, false), Field::Simple("x_", Ty::Bool, true)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.name.put()), Node::Val(self.owner.put()), Node::Val(self.x_.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { name: Cell::get(n.next()?.val()?)?, owner: Cell::get(n.next()?.val()?)?, x_: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.name = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.owner = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.x_ = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G10 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G10", table: "t g10", primary: "user_id", auto: true, fields: &[Field::Simple("user_id", Ty::I64, false), Field::Simple("name", Ty::Hex, true)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.user_id.put()), Node::Val(self.name.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { user_id: Cell::get(n.next()?.val()?)?, name: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.user_id = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.name = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G11 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G11", table: "g11.x", primary: "n0", auto: true, fields: &[Field::Simple("date", Ty::F64, false), Field::Simple("Upper", Ty::Time, true), Field::Simple("y", Ty::I32, false), Field::Ref("size", <m::Words as Entity>::spec), Field::Ref("match", <m::G07 as Entity>::spec), Field::Simple("user_id", Ty::F32, false), Field::Simple("n0", Ty::U8, false), Field::Ref("x_", <m::Refs as Entity>::spec)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.date.put()), Node::Val(self.Upper.put()), Node::Val(self.y.put()), Node::Ref(self.size.dump()), Node::Ref(self.r#match.dump()), Node::Val(self.user_id.put()), Node::Val(self.n0.put()), Node::Ref(self.x_.dump())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { date: Cell::get(n.next()?.val()?)?, Upper: Cell::get(n.next()?.val()?)?, y: Cell::get(n.next()?.val()?)?, size: Entity::build(n.next()?.nodes()?)?, r#match: Entity::build(n.next()?.nodes()?)?, user_id: Cell::get(n.next()?.val()?)?, n0: Cell::get(n.next()?.val()?)?, x_: Entity::build(n.next()?.nodes()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.date = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.Upper = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.y = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.size = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.size = ActiveReference::Insert(activate::<m::Words>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.r#match = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.r#match = ActiveReference::Insert(activate::<m::G07>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.user_id = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.n0 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.x_ = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.x_ = ActiveReference::Insert(activate::<m::Refs>(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G12 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G12", table: "t g12", primary: "ref", auto: true, fields: &[Field::Simple("a", Ty::I8, false), Field::Struct("key", &[("key_x", Ty::F32, false), ("key_y", Ty::F32, false), ("key_z", Ty::F32, false)]), Field::Struct("to", &[("to_b", Ty::I32, false), ("to_a", Ty::I32, false)]), Field::Simple("y", Ty::I8, false), Field::Simple("ref", Ty::U32, false), Field::Ref("map", <m::Keys as Entity>::spec), Field::Ref("x_", <m::Only as Entity>::spec), Field::Ref("abc", <m::Timed as Entity>::spec)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.a.put()), Node::Struct(vec![self.key.x.put(), self.key.y.put(), self.key.z.put()]), Node::Struct(vec![self.to.a.put(), self.to.b.put()]), Node::Val(self.y.put()), Node::Val(self.r#ref.put()), Node::Ref(self.map.dump()), Node::Ref(self.x_.dump()), Node::Ref(self.abc.dump())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { a: Cell::get(n.next()?.val()?)?, key: { let mut v = n.next()?.cells()?; m::Vec3 { x: Cell::get(v.next()?)?, y: Cell::get(v.next()?)?, z: Cell::get(v.next()?)? } }, to: { let mut v = n.next()?.cells()?; m::Swap { a: Cell::get(v.next()?)?, b: Cell::get(v.next()?)? } }, y: Cell::get(n.next()?.val()?)?, r#ref: Cell::get(n.next()?.val()?)?, map: Entity::build(n.next()?.nodes()?)?, x_: Entity::build(n.next()?.nodes()?)?, abc: Entity::build(n.next()?.nodes()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.a = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Struct(v) => { let mut v = v.iter(); m.key = ActiveValue::Set(m::Vec3 { x: Cell::get(v.next()?)?, y: Cell::get(v.next()?)?, z: Cell::get(v.next()?)? }) }, Act::Unset => (), _ => return None }
        match p.next()? { Act::Struct(v) => { let mut v = v.iter(); m.to = ActiveValue::Set(m::Swap { a: Cell::get(v.next()?)?, b: Cell::get(v.next()?)? }) }, Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.y = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.r#ref = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.map = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.map = ActiveReference::Insert(activate::<m::Keys>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.x_ = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.x_ = ActiveReference::Insert(activate::<m::Only>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.abc = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.abc = ActiveReference::Insert(activate::<m::Timed>(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G13 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G13", table: "G13", primary: "a", auto: true, fields: &[Field::Simple("limit", Ty::F32, false), Field::Simple("a", Ty::U16, false), Field::Simple("type", Ty::I8, true)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.limit.put()), Node::Val(self.a.put()), Node::Val(self.r#type.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { limit: Cell::get(n.next()?.val()?)?, a: Cell::get(n.next()?.val()?)?, r#type: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.limit = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.a = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.r#type = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G14 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G14", table: "t g14", primary: "ab", auto: false, fields: &[Field::Ref("y", <m::Refs as Entity>::spec), Field::Simple("owner", Ty::Bool, false), Field::Simple("ref", Ty::Hex, true), Field::Simple("state", Ty::U64, false), Field::Ref("match", <m::G03 as Entity>::spec), Field::Ref("abc", <m::Every as Entity>::spec), Field::Ref("n1", <m::Only as Entity>::spec), Field::Simple("ab", Ty::U32, false)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Ref(self.y.dump()), Node::Val(self.owner.put()), Node::Val(self.r#ref.put()), Node::Val(self.state.put()), Node::Ref(self.r#match.dump()), Node::Ref(self.abc.dump()), Node::Ref(self.n1.dump()), Node::Val(self.ab.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { y: Entity::build(n.next()?.nodes()?)?, owner: Cell::get(n.next()?.val()?)?, r#ref: Cell::get(n.next()?.val()?)?, state: Cell::get(n.next()?.val()?)?, r#match: Entity::build(n.next()?.nodes()?)?, abc: Entity::build(n.next()?.nodes()?)?, n1: Entity::build(n.next()?.nodes()?)?, ab: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Key(v) => m.y = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.y = ActiveReference::Insert(activate::<m::Refs>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.owner = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.r#ref = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.state = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.r#match = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.r#match = ActiveReference::Insert(activate::<m::G03>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.abc = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.abc = ActiveReference::Insert(activate::<m::Every>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.n1 = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.n1 = ActiveReference::Insert(activate::<m::Only>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.ab = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G15 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G15", table: "g15.x", primary: "id", auto: true, fields: &[Field::Simple("x", Ty::Hex, false), Field::Struct("kind", &[("kind_b", Ty::I32, false), ("kind_a", Ty::I32, false)]), Field::Simple("n0", Ty::Text, true), Field::Ref("date", <m::Keys as Entity>::spec), Field::Simple("id", Ty::U16, false)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.x.put()), Node::Struct(vec![self.kind.a.put(), self.kind.b.put()]), Node::Val(self.n0.put()), Node::Ref(self.date.dump()), Node::Val(self.id.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { x: Cell::get(n.next()?.val()?)?, kind: { let mut v = n.next()?.cells()?; m::Swap { a: Cell::get(v.next()?)?, b: Cell::get(v.next()?)? } }, n0: Cell::get(n.next()?.val()?)?, date: Entity::build(n.next()?.nodes()?)?, id: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.x = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Struct(v) => { let mut v = v.iter(); m.kind = ActiveValue::Set(m::Swap { a: Cell::get(v.next()?)?, b: Cell::get(v.next()?)? }) }, Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.n0 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.date = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.date = ActiveReference::Insert(activate::<m::Keys>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.id = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G16 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G16", table: "g-16", primary: "id", auto: false, fields: &[Field::Simple("mid", Ty::I16, true), Field::Simple("match", Ty::Date, false), Field::Simple("id", Ty::U64, false)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.mid.put()), Node::Val(self.r#match.put()), Node::Val(self.id.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { mid: Cell::get(n.next()?.val()?)?, r#match: Cell::get(n.next()?.val()?)?, id: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.mid = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.r#match = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.id = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G17 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G17", table: "g17", primary: "to", auto: false, fields: &[Field::Ref("state", <m::Timed as Entity>::spec), Field::Simple("to", Ty::U8, false), Field::Ref("kind", <m::G04 as Entity>::spec), Field::Ref("y", <m::G08 as Entity>::spec), Field::Simple("ab", Ty::I64, true), Field::Simple("_x", Ty::Hex, true), Field::Struct("key", &[("key_b", Ty::I32, false), ("key_a", Ty::I32, false)]), Field::Simple("type", Ty::I32, true)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Ref(self.state.dump()), Node::Val(self.to.put()), Node::Ref(self.kind.dump()), Node::Ref(self.y.dump()), Node::Val(self.ab.put()), Node::Val(self._x.put()), Node::Struct(vec![self.key.a.put(), self.key.b.put()]), Node::Val(self.r#type.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { state: Entity::build(n.next()?.nodes()?)?, to: Cell::get(n.next()?.val()?)?, kind: Entity::build(n.next()?.nodes()?)?, y: Entity::build(n.next()?.nodes()?)?, ab: Cell::get(n.next()?.val()?)?, _x: Cell::get(n.next()?.val()?)?, key: { let mut v = n.next()?.cells()?; m::Swap { a: Cell::get(v.next()?)?, b: Cell::get(v.next()?)? } }, r#type: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Key(v) => m.state = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.state = ActiveReference::Insert(activate::<m::Timed>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.to = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.kind = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.kind = ActiveReference::Insert(activate::<m::G04>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.y = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.y = ActiveReference::Insert(activate::<m::G08>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.ab = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m._x = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Struct(v) => { let mut v = v.iter(); m.key = ActiveValue::Set(m::Swap { a: Cell::get(v.next()?)?, b: Cell::get(v.next()?)? }) }, Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.r#type = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G18 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G18", table: "g-18", primary: "fn", auto: true, fields: &[Field::Simple("from", Ty::U64, true), Field::Simple("fn", Ty::U32, false), Field::Struct("mid", &[("mid_type", Ty::U16, false)]), Field::Simple("date", Ty::U8, true), Field::Ref("match", <m::G05 as Entity>::spec), Field::Simple("size", Ty::U16, false), Field::Ref("name", <m::G13 as Entity>::spec), Field::Ref("b", <m::G16 as Entity>::spec)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.from.put()), Node::Val(self.r#fn.put()), Node::Struct(vec![self.mid.r#type.put()]), Node::Val(self.date.put()), Node::Ref(self.r#match.dump()), Node::Val(self.size.put()), Node::Ref(self.name.dump()), Node::Ref(self.b.dump())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { from: Cell::get(n.next()?.val()?)?, r#fn: Cell::get(n.next()?.val()?)?, mid: { let mut v = n.next()?.cells()?; m::One { r#type: Cell::get(v.next()?)? } }, date: Cell::get(n.next()?.val()?)?, r#match: Entity::build(n.next()?.nodes()?)?, size: Cell::get(n.next()?.val()?)?, name: Entity::build(n.next()?.nodes()?)?, b: Entity::build(n.next()?.nodes()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.from = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.r#fn = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Struct(v) => { let mut v = v.iter(); m.mid = ActiveValue::Set(m::One { r#type: Cell::get(v.next()?)? }) }, Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.date = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.r#match = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.r#match = ActiveReference::Insert(activate::<m::G05>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.size = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.name = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.name = ActiveReference::Insert(activate::<m::G13>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.b = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.b = ActiveReference::Insert(activate::<m::G16>(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G19 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G19", table: "g19", primary: "n0", auto: true, fields: &[Field::Simple("x", Ty::I64, false), Field::Ref("to", <m::Middle as Entity>::spec), Field::Simple("n0", Ty::I32, false), Field::Simple("type", Ty::U32, true), Field::Struct("size", &[("size_type", Ty::U16, false)]), Field::Simple("limit", Ty::Time, false), Field::Simple("data", Ty::Blob, false), Field::Simple("fn", Ty::F64, false)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.x.put()), Node::Ref(self.to.dump()), Node::Val(self.n0.put()), Node::Val(self.r#type.put()), Node::Struct(vec![self.size.r#type.put()]), Node::Val(self.limit.put()), Node::Val(self.data.put()), Node::Val(self.r#fn.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { x: Cell::get(n.next()?.val()?)?, to: Entity::build(n.next()?.nodes()?)?, n0: Cell::get(n.next()?.val()?)?, r#type: Cell::get(n.next()?.val()?)?, size: { let mut v = n.next()?.cells()?; m::One { r#type: Cell::get(v.next()?)? } }, limit: Cell::get(n.next()?.val()?)?, data: Cell::get(n.next()?.val()?)?, r#fn: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.x = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.to = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.to = ActiveReference::Insert(activate::<m::Middle>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.n0 = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.r#type = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Struct(v) => { let mut v = v.iter(); m.size = ActiveValue::Set(m::One { r#type: Cell::get(v.next()?)? }) }, Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.limit = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.data = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.r#fn = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G20 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G20", table: "g20", primary: "date", auto: false, fields: &[Field::Ref("Upper", <m::Every as Entity>::spec), Field::Simple("match", Ty::Time, false), Field::Simple("größe", Ty::I8, true), Field::Ref("data", <m::G10 as Entity>::spec), Field::Simple("map", Ty::Blob, false), Field::Simple("size", Ty::Bool, false), Field::Simple("date", Ty::I8, false), Field::Simple("user", Ty::I32, false)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Ref(self.Upper.dump()), Node::Val(self.r#match.put()), Node::Val(self.größe.put()), Node::Ref(self.data.dump()), Node::Val(self.map.put()), Node::Val(self.size.put()), Node::Val(self.date.put()), Node::Val(self.user.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { Upper: Entity::build(n.next()?.nodes()?)?, r#match: Cell::get(n.next()?.val()?)?, größe: Cell::get(n.next()?.val()?)?, data: Entity::build(n.next()?.nodes()?)?, map: Cell::get(n.next()?.val()?)?, size: Cell::get(n.next()?.val()?)?, date: Cell::get(n.next()?.val()?)?, user: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Key(v) => m.Upper = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.Upper = ActiveReference::Insert(activate::<m::Every>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.r#match = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.größe = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.data = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.data = ActiveReference::Insert(activate::<m::G10>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.map = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.size = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.date = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.user = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::G21 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "G21", table: "g-21", primary: "y", auto: false, fields: &[Field::Simple("y", Ty::U32, false), Field::Ref("b", <m::G19 as Entity>::spec)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.y.put()), Node::Ref(self.b.dump())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { y: Cell::get(n.next()?.val()?)?, b: Entity::build(n.next()?.nodes()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.y = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.b = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.b = ActiveReference::Insert(activate::<m::G19>(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::Umlaut {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "Umlaut", table: "straße", primary: "id", auto: false, fields: &[Field::Simple("id", Ty::U16, false), Field::Ref("größe", <m::Middle as Entity>::spec), Field::Ref("größer", <m::Leafy as Entity>::spec), Field::Struct("wörter", &[("wörter_amount", Ty::I64, false), ("wörter_cur", Ty::Text, true)]), Field::Ref("日本", <m::Refs as Entity>::spec), Field::Simple("ö", Ty::Text, true)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.id.put()), Node::Ref(self.größe.dump()), Node::Ref(self.größer.dump()), Node::Struct(vec![self.wörter.amount.put(), self.wörter.currency.put()]), Node::Ref(self.日本.dump()), Node::Val(self.ö.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { id: Cell::get(n.next()?.val()?)?, größe: Entity::build(n.next()?.nodes()?)?, größer: Entity::build(n.next()?.nodes()?)?, wörter: { let mut v = n.next()?.cells()?; m::Money { amount: Cell::get(v.next()?)?, currency: Cell::get(v.next()?)? } }, 日本: Entity::build(n.next()?.nodes()?)?, ö: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.id = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.größe = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.größe = ActiveReference::Insert(activate::<m::Middle>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.größer = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.größer = ActiveReference::Insert(activate::<m::Leafy>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Struct(v) => { let mut v = v.iter(); m.wörter = ActiveValue::Set(m::Money { amount: Cell::get(v.next()?)?, currency: Cell::get(v.next()?)? }) }, Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.日本 = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.日本 = ActiveReference::Insert(activate::<m::Refs>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.ö = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::Umlauts {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "Umlauts", table: "ü", primary: "id", auto: true, fields: &[Field::Ref("ä", <m::Umlaut as Entity>::spec), Field::Simple("id", Ty::U32, false), Field::Ref("ää", <m::Leafy as Entity>::spec)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Ref(self.ä.dump()), Node::Val(self.id.put()), Node::Ref(self.ää.dump())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { ä: Entity::build(n.next()?.nodes()?)?, id: Cell::get(n.next()?.val()?)?, ää: Entity::build(n.next()?.nodes()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Key(v) => m.ä = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.ä = ActiveReference::Insert(activate::<m::Umlaut>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.id = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.ää = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.ää = ActiveReference::Insert(activate::<m::Leafy>(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::Knot2 {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "Knot2", table: "knot2", primary: "id", auto: true, fields: &[Field::Simple("id", Ty::U32, false), Field::Ref("knot", <m::Leafy as Entity>::spec), Field::Simple("x", Ty::I32, false)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.id.put()), Node::Ref(self.knot.dump()), Node::Val(self.x.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { id: Cell::get(n.next()?.val()?)?, knot: Entity::build(n.next()?.nodes()?)?, x: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.id = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.knot = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.knot = ActiveReference::Insert(activate::<m::Leafy>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.x = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

impl Entity for m::Knot {
    fn spec() -> &'static Spec {
        static S: Spec = Spec { rust: "Knot", table: "knot", primary: "key", auto: true, fields: &[Field::Simple("id", Ty::I32, true), Field::Simple("key", Ty::U16, false), Field::Ref("knot", <m::Knot2 as Entity>::spec), Field::Ref("leaf", <m::Leafy as Entity>::spec), Field::Simple("x", Ty::Text, false)] };
        &S
    }
    fn dump(self) -> Vec<Node> {
        vec![Node::Val(self.id.put()), Node::Val(self.key.put()), Node::Ref(self.knot.dump()), Node::Ref(self.leaf.dump()), Node::Val(self.x.put())]
    }
    fn build(n: &[Node]) -> Option<Self> {
        let mut n = n.iter();
        Some(Self { id: Cell::get(n.next()?.val()?)?, key: Cell::get(n.next()?.val()?)?, knot: Entity::build(n.next()?.nodes()?)?, leaf: Entity::build(n.next()?.nodes()?)?, x: Cell::get(n.next()?.val()?)? })
    }
    fn updater(v: &Value) -> Option<UpdateModel<Self>> {
        Some(UpdateModel::new(Cell::get(v)?))
    }
    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {
        let mut p = p.iter();
        match p.next()? { Act::Val(v) => m.id = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.key = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.knot = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.knot = ActiveReference::Insert(activate::<m::Knot2>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Key(v) => m.leaf = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.leaf = ActiveReference::Insert(activate::<m::Leafy>(v)?), Act::Unset => (), _ => return None }
        match p.next()? { Act::Val(v) => m.x = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }
        Some(())
    }
}

/// One function for each model.
#[macro_export]
macro_rules! every_entity {
    ($f:ident, $t:ty) => {
        &[
            $f::<$crate::models_gen::Only> as $t,
            $f::<$crate::models_gen::Leafy> as $t,
            $f::<$crate::models_gen::LeafView> as $t,
            $f::<$crate::models_gen::Words> as $t,
            $f::<$crate::models_gen::Every> as $t,
            $f::<$crate::models_gen::Maybe> as $t,
            $f::<$crate::models_gen::Structs> as $t,
            $f::<$crate::models_gen::Timed> as $t,
            $f::<$crate::models_gen::Float> as $t,
            $f::<$crate::models_gen::Middle> as $t,
            $f::<$crate::models_gen::Rooty> as $t,
            $f::<$crate::models_gen::Ringy> as $t,
            $f::<$crate::models_gen::Keys> as $t,
            $f::<$crate::models_gen::Refs> as $t,
            $f::<$crate::models_gen::Deep> as $t,
            $f::<$crate::models_gen::Wide> as $t,
            $f::<$crate::models_gen::G00> as $t,
            $f::<$crate::models_gen::G01> as $t,
            $f::<$crate::models_gen::G02> as $t,
            $f::<$crate::models_gen::G03> as $t,
            $f::<$crate::models_gen::G04> as $t,
            $f::<$crate::models_gen::G05> as $t,
            $f::<$crate::models_gen::G06> as $t,
            $f::<$crate::models_gen::G07> as $t,
            $f::<$crate::models_gen::G08> as $t,
            $f::<$crate::models_gen::G09> as $t,
            $f::<$crate::models_gen::G10> as $t,
            $f::<$crate::models_gen::G11> as $t,
            $f::<$crate::models_gen::G12> as $t,
            $f::<$crate::models_gen::G13> as $t,
            $f::<$crate::models_gen::G14> as $t,
            $f::<$crate::models_gen::G15> as $t,
            $f::<$crate::models_gen::G16> as $t,
            $f::<$crate::models_gen::G17> as $t,
            $f::<$crate::models_gen::G18> as $t,
            $f::<$crate::models_gen::G19> as $t,
            $f::<$crate::models_gen::G20> as $t,
            $f::<$crate::models_gen::G21> as $t,
            $f::<$crate::models_gen::Umlaut> as $t,
            $f::<$crate::models_gen::Umlauts> as $t,
            $f::<$crate::models_gen::Knot2> as $t,
            $f::<$crate::models_gen::Knot> as $t,
        ]
    };
}
