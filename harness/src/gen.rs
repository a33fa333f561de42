//! Grammar-directed generator of Apex sources.
//!
//! It emits a list of pieces (tokens, glue, layout slots), not text: the same program can
//! then be rendered compactly, prettily, with hostile whitespace, or with comments injected.
use crate::rng::Rng;
use std::collections::HashSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Slot {
    /// before a top level declaration / statement
    TopStart,
    /// before a member of a class / interface / enum body / accessor list
    MemberStart,
    /// before a statement in a block
    StmtStart,
    /// before an accessor of a property / before the end of the accessor list
    AccStart,
    AccEnd,
    /// before the closing brace of a body
    BodyEnd,
}

#[derive(Clone, Debug, PartialEq)]
pub enum P {
    T(String),
    /// case-insensitive keyword
    K(String),
    /// next token must directly follow (no whitespace, no comment)
    Glue,
    /// next token must follow after exactly one blank, no comment
    OneSpace,
    Slot(Slot),
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub out: Vec<P>,
    pub depth: usize,
    pub budget: i64,
    pub off: &'r HashSet<String>,
    /// constructs used (coverage)
    pub used: Vec<&'static str>,
    /// keyword case mode: 0 canonical-ish, 1 random
    pub case_mode: u8,
    pub long_names: bool,
}

const TYPES: &[&str] = &[
    "Integer", "String", "Account", "Object", "Id", "Decimal", "SObject", "My_Obj__c", "Datetime",
    "Boolean", "Long",
];
const IDS: &[&str] = &[
    "a", "b", "foo", "acc", "myVariable", "x1", "Total_Amount__c", "newList", "idx", "result",
    "someValue", "m_Map", "Name", "isOk", "countOfThings", "_x", "$dollar", "ids", "opp", "Owner",
    "whenDone", "newName", "elseVal", "thisOne", "classy", "nullable", "trueish", "selectable",
    "fromDate", "likeIt", "order_", "finalValue", "staticKey", "publicName", "returnValue", "iffy",
    "Überschrift", "naïve", "Ωmega",
];
const LONG_IDS: &[&str] = &[
    "aVeryLongVariableNameThatTakesALotOfRoom",
    "anotherQuiteLongIdentifierForBreaking",
    "someServiceClassWithLongName",
    "theResultOfTheComputation",
    "opportunityLineItemIdsToProcess",
];
const FIELDS: &[&str] = &[
    "Id", "Name", "Owner.Name", "Account.Owner.Profile.Name", "CreatedDate", "My_Field__c", "Amount",
    "Parent__r.Value__c", "StageName", "IsClosed", "Description__c",
];
const OBJS: &[&str] = &["Account", "Contact", "Opportunity", "My_Obj__c", "User", "Lead"];

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, budget: i64, off: &'r HashSet<String>) -> Self {
        let case_mode = if r.pct(35) { 1 } else { 0 };
        let long_names = r.pct(35);
        Gen { r, out: vec![], depth: 0, budget, off, used: vec![], case_mode, long_names }
    }
    fn on(&mut self, f: &'static str, p: usize) -> bool {
        if self.off.contains(f) || !self.r.pct(p) {
            return false;
        }
        self.used.push(f);
        true
    }
    fn t(&mut self, s: &str) {
        self.budget -= 1;
        self.out.push(P::T(s.to_string()));
    }
    fn ts(&mut self, ss: &[&str]) {
        for s in ss {
            self.t(s);
        }
    }
    fn glue(&mut self) {
        self.out.push(P::Glue);
    }
    fn slot(&mut self, s: Slot) {
        self.out.push(P::Slot(s));
    }
    /// case-insensitive keyword
    fn kw(&mut self, s: &str) {
        let t = self.recase(s);
        self.budget -= 1;
        self.out.push(P::K(t));
    }
    fn recase(&mut self, s: &str) -> String {
        if self.case_mode == 0 {
            return s.to_string();
        }
        match self.r.below(4) {
            0 => s.to_uppercase(),
            1 => s.to_lowercase(),
            2 => s.to_string(),
            _ => s
                .chars()
                .map(|c| if self.r.pct(50) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
                .collect(),
        }
    }
    /// query keyword: upper case by convention
    fn qkw(&mut self, s: &str) {
        let base = if self.case_mode == 0 && self.r.pct(80) { s.to_string() } else { self.recase(s) };
        self.budget -= 1;
        self.out.push(P::K(base));
    }
    fn alt_t(&mut self, p: usize, a: &str, b: &str) {
        let x = if self.r.pct(p) { a } else { b };
        self.t(x);
    }
    fn alt_kw(&mut self, p: usize, a: &str, b: &str) {
        let x = if self.r.pct(p) { a } else { b };
        self.kw(x);
    }
    fn alt_qkw(&mut self, p: usize, a: &str, b: &str) {
        let x = if self.r.pct(p) { a } else { b };
        self.qkw(x);
    }
    fn poor(&self) -> bool {
        self.budget <= 0 || self.depth > 14
    }
    fn id(&mut self) -> String {
        if self.long_names && self.r.pct(40) {
            return self.r.pick(LONG_IDS).to_string();
        }
        if self.r.pct(10) {
            return crate::dict::get().id(&mut self.r);
        }
        loop {
            let s = *self.r.pick(IDS);
            if !s.is_ascii() && self.off.contains("unicode_id") {
                continue;
            }
            return s.to_string();
        }
    }
    fn ident(&mut self) {
        let s = self.id();
        self.t(&s);
    }
    fn dotted(&mut self, s: &str) {
        let parts: Vec<&str> = s.split('.').collect();
        for (i, p) in parts.iter().enumerate() {
            if i > 0 {
                self.t(".");
            }
            self.t(p);
        }
    }

    // ---------- top level ----------
    pub fn unit(&mut self) {
        if self.on("trigger", 12) {
            self.trigger();
            return;
        }
        if self.on("anonymous", 15) {
            // anonymous Apex: top level statements
            let n = self.r.range(1, 6);
            for _ in 0..n {
                self.slot(Slot::TopStart);
                self.stmt();
            }
            return;
        }
        let n = if self.on("multi_top", 8) { 2 } else { 1 };
        for _ in 0..n {
            self.slot(Slot::TopStart);
            match self.r.below(12) {
                0 => self.interface(),
                1 => self.enum_(),
                _ => self.class(),
            }
        }
    }
    /// a class whose statements are mostly queries
    pub fn query_unit(&mut self) {
        self.slot(Slot::TopStart);
        self.kw("class");
        self.ident();
        self.t("{");
        self.slot(Slot::MemberStart);
        self.kw("void");
        self.ident();
        self.ts(&["(", ")", "{"]);
        let n = self.r.range(1, 3);
        for _ in 0..n {
            self.slot(Slot::StmtStart);
            match self.r.below(6) {
                0 => {
                    self.kw("return");
                }
                1 => {
                    self.kw("for");
                    self.ts(&["(", "Account", "a", ":"]);
                    self.query();
                    self.t(")");
                    self.block();
                    continue;
                }
                2 => {
                    self.ident();
                    self.t(".");
                    self.ident();
                    self.t("(");
                    if self.r.pct(30) { self.sosl(); } else { self.query(); }
                    self.ts(&[")", ";"]);
                    continue;
                }
                _ => {
                    self.ts(&["List", "<", "SObject", ">"]);
                    self.ident();
                    self.t("=");
                }
            }
            if self.r.pct(25) && !self.off.contains("sosl") {
                self.sosl();
            } else {
                self.query();
            }
            self.t(";");
        }
        self.slot(Slot::BodyEnd);
        self.t("}");
        self.slot(Slot::BodyEnd);
        self.t("}");
    }
    fn trigger(&mut self) {
        self.slot(Slot::TopStart);
        self.kw("trigger");
        self.ident();
        self.kw("on");
        let o = self.r.pick(OBJS).to_string();
        self.t(&o);
        self.t("(");
        let evs = [
            "before insert", "before update", "before delete", "after insert", "after update",
            "after delete", "after undelete",
        ];
        let n = self.r.range(1, 6);
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            let e = self.r.pick(&evs).to_string();
            self.kw(&e);
        }
        self.t(")");
        self.block();
    }
    fn annotation(&mut self) {
        self.t("@");
        self.glue();
        let names = ["IsTest", "AuraEnabled", "TestVisible", "future", "InvocableMethod", "Deprecated", "RestResource", "HttpGet"];
        let n = self.r.pick(&names).to_string();
        self.kw(&n);
        if self.on("anno_empty_args", 5) {
            self.ts(&["(", ")"]);
        } else if self.on("anno_value", 8) {
            self.t("(");
            if self.r.pct(50) {
                self.string();
            } else {
                self.ident();
            }
            self.t(")");
        } else if self.on("anno_kv", 35) {
            self.t("(");
            let n = self.r.range(1, 3);
            for _ in 0..n {
                let k = ["cacheable", "label", "description", "SeeAllData", "urlMapping", "callout"];
                let k = self.r.pick(&k).to_string();
                self.t(&k);
                self.t("=");
                match self.r.below(3) {
                    0 => self.kw("true"),
                    1 => self.kw("false"),
                    _ => self.string(),
                }
            }
            self.t(")");
        }
    }
    fn modifiers(&mut self, pool: &[&str], p: usize) {
        if self.on("annotation", 18) {
            let n = self.r.range(1, 2);
            for _ in 0..n {
                self.annotation();
            }
        }
        if self.r.pct(p) {
            let n = self.r.range(1, 2.min(pool.len()));
            for _ in 0..n {
                let m = self.r.pick(pool).to_string();
                self.kw(&m);
            }
        }
        if self.on("annotation_late", 2) {
            self.annotation();
        }
    }
    fn type_params(&mut self) {
        self.ts(&["<", "T"]);
        if self.r.pct(40) {
            self.ts(&[",", "K"]);
        }
        self.t(">");
    }
    fn class(&mut self) {
        self.depth += 1;
        self.modifiers(
            &["public", "private", "global", "virtual", "abstract", "with sharing", "without sharing", "inherited sharing", "static"],
            75,
        );
        self.kw("class");
        self.ident();
        if self.on("class_tparams", 4) {
            self.type_params();
        }
        if self.on("extends", 20) {
            self.kw("extends");
            self.type_();
        }
        if self.on("implements", 20) {
            self.kw("implements");
            let n = self.r.range(1, 3);
            for i in 0..n {
                if i > 0 {
                    self.t(",");
                }
                self.type_nonarray();
            }
        }
        self.class_body();
        self.depth -= 1;
    }
    fn class_body(&mut self) {
        self.t("{");
        let n = if self.poor() || self.r.pct(4) { 0 } else { self.r.range(1, 5) };
        for _ in 0..n {
            if self.budget <= 0 {
                break;
            }
            self.slot(Slot::MemberStart);
            self.member();
        }
        self.slot(Slot::BodyEnd);
        self.t("}");
    }
    fn member(&mut self) {
        let fm = ["public", "private", "static", "final", "global", "protected", "transient", "webservice"];
        let mm = ["public", "private", "static", "global", "protected", "virtual", "override", "abstract", "testMethod", "webservice"];
        match self.r.below(20) {
            0 if self.on("inner_class", 100) => self.class(),
            1 if self.on("inner_interface", 100) => self.interface(),
            2 if self.on("inner_enum", 100) => self.enum_(),
            3 if self.on("static_init", 100) => {
                self.kw("static");
                self.block();
            }
            4 if self.on("init_block", 100) => self.block(),
            5 if self.on("class_semi", 100) => self.t(";"),
            6 | 7 if self.on("ctor", 100) => {
                self.modifiers(&["public", "private", "global"], 80);
                self.ident();
                self.params();
                self.t("{");
                if self.on("explicit_ctor", 40) {
                    self.slot(Slot::StmtStart);
                    if self.r.pct(50) {
                        self.kw("this");
                    } else {
                        self.kw("super");
                    }
                    self.args();
                    self.t(";");
                }
                let n = if self.poor() { 0 } else { self.r.below(4) };
                for _ in 0..n {
                    self.slot(Slot::StmtStart);
                    self.stmt();
                }
                self.slot(Slot::BodyEnd);
                self.t("}");
            }
            8 | 9 | 10 if self.on("property", 100) => {
                self.modifiers(&fm, 80);
                self.type_();
                self.ident();
                self.t("{");
                let n = self.r.range(1, 2);
                for i in 0..n {
                    self.slot(Slot::AccStart);
                    if self.r.pct(20) {
                        self.kw(["private", "public", "protected"][i % 3]);
                    }
                    self.kw(if i == 0 { "get" } else { "set" });
                    if self.r.pct(50) || self.poor() {
                        self.t(";");
                    } else {
                        self.block();
                    }
                }
                self.slot(Slot::AccEnd);
                self.t("}");
            }
            11 | 12 | 13 if self.on("field", 100) => {
                self.modifiers(&fm, 80);
                self.type_();
                self.declarators();
                self.t(";");
            }
            _ => {
                self.modifiers(&mm, 85);
                if self.on("method_tparams", 2) {
                    self.type_params();
                }
                if self.r.pct(40) {
                    self.kw("void");
                } else {
                    self.type_();
                }
                self.ident();
                self.params();
                if self.on("method_dims", 1) {
                    self.ts(&["[", "]"]);
                }
                if self.on("abstract_method", 12) {
                    self.t(";");
                } else {
                    self.block();
                }
            }
        }
    }
    fn params(&mut self) {
        self.t("(");
        let n = if self.r.pct(30) { 0 } else { self.r.range(1, 4) };
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            if self.on("param_final", 15) {
                self.kw("final");
            }
            self.type_();
            self.ident();
            if self.on("param_dims", 3) {
                self.ts(&["[", "]"]);
            }
        }
        self.t(")");
    }
    fn interface(&mut self) {
        self.depth += 1;
        self.modifiers(&["public", "private", "global", "virtual"], 70);
        self.kw("interface");
        self.ident();
        if self.on("iface_tparams", 5) {
            self.type_params();
        }
        if self.on("iface_extends", 30) {
            self.kw("extends");
            let n = self.r.range(1, 3);
            for i in 0..n {
                if i > 0 {
                    self.t(",");
                }
                self.type_nonarray();
            }
        }
        self.t("{");
        let n = self.r.below(4);
        for _ in 0..n {
            self.slot(Slot::MemberStart);
            if self.on("iface_const", 12) {
                if self.r.pct(60) {
                    self.kw("static");
                    self.kw("final");
                }
                self.type_();
                self.ident();
                self.t("=");
                self.expr();
                self.t(";");
                continue;
            }
            if self.r.pct(30) {
                self.kw("void");
            } else {
                self.type_();
            }
            self.ident();
            self.params();
            self.t(";");
        }
        self.slot(Slot::BodyEnd);
        self.t("}");
        self.depth -= 1;
    }
    fn enum_(&mut self) {
        self.modifiers(&["public", "private", "global"], 70);
        self.kw("enum");
        self.ident();
        if self.on("enum_implements", 2) {
            self.kw("implements");
            self.type_nonarray();
        }
        self.t("{");
        let n = self.r.range(if self.off.contains("enum_empty") { 1 } else { 0 }, 5);
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            self.slot(Slot::MemberStart);
            self.ident();
        }
        self.slot(Slot::BodyEnd);
        self.t("}");
    }

    // ---------- types ----------
    pub fn type_(&mut self) {
        self.type_nonarray();
        if self.on("array_type", 10) {
            self.ts(&["[", "]"]);
            if self.on("array_type_2d", 12) {
                self.ts(&["[", "]"]);
            }
        }
    }
    fn type_nonarray(&mut self) {
        self.depth += 1;
        match if self.poor() { 0 } else { self.r.below(20) } {
            0..=11 => {
                let s = self.r.pick(TYPES).to_string();
                self.t(&s);
            }
            12 => self.kw_lc("boolean"),
            13 | 14 => {
                self.t("List");
                self.t("<");
                self.type_();
                self.t(">");
            }
            15 => {
                self.t("Map");
                self.t("<");
                self.type_();
                self.t(",");
                self.type_();
                self.t(">");
            }
            16 => {
                self.t("Set");
                self.t("<");
                self.type_();
                self.t(">");
            }
            17 if self.on("scoped_type", 100) => {
                self.dotted("Outer.Inner");
            }
            18 if self.on("scoped_generic", 100) => {
                self.dotted("Database.Batchable");
                self.t("<");
                self.type_();
                self.t(">");
            }
            19 if self.on("java_type", 4) => {
                self.t("java:");
                self.dotted("foo.bar.Baz");
            }
            _ => {
                let s = self.r.pick(TYPES).to_string();
                self.t(&s);
            }
        }
        self.depth -= 1;
    }
    fn kw_lc(&mut self, s: &str) {
        self.t(s);
    }

    // ---------- statements ----------
    pub fn block(&mut self) {
        self.t("{");
        let n = if self.poor() { self.r.below(2) } else { self.r.below(5) };
        for _ in 0..n {
            self.slot(Slot::StmtStart);
            self.stmt();
            if self.budget <= -40 {
                break;
            }
        }
        self.slot(Slot::BodyEnd);
        self.t("}");
    }
    fn declarators(&mut self) {
        let n = if self.on("multi_declarator", 8) { 2 } else { 1 };
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            self.ident();
            if self.on("declarator_dims", 3) {
                self.ts(&["[", "]"]);
            }
            if self.r.pct(60) {
                self.t("=");
                if self.on("array_init_bare", 4) {
                    self.array_init();
                } else {
                    self.expr();
                }
            }
        }
    }
    fn array_init(&mut self) {
        self.t("{");
        let n = self.r.below(4);
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            self.expr();
        }
        self.t("}");
    }
    fn paren_expr(&mut self) {
        self.t("(");
        self.expr();
        self.t(")");
    }
    fn body_stmt(&mut self) {
        if self.r.pct(75) {
            self.block();
        } else if self.on("stmt_body_unbraced", 80) {
            self.stmt();
        } else if self.on("stmt_body_semi", 60) {
            self.t(";");
        } else {
            self.block();
        }
    }
    pub fn stmt(&mut self) {
        self.depth += 1;
        let k = if self.poor() { 99 } else { self.r.below(60) };
        match k {
            0..=9 if self.on("local_var", 100) => {
                if self.on("local_final", 8) {
                    self.kw("final");
                }
                self.type_();
                self.declarators();
                self.t(";");
            }
            10..=15 if self.on("if", 100) => self.if_(0),
            16 | 17 if self.on("while", 100) => {
                self.kw("while");
                self.paren_expr();
                self.body_stmt();
            }
            18 | 19 if self.on("for", 100) => self.for_(),
            20..=22 if self.on("for_each", 100) => {
                self.kw("for");
                self.t("(");
                if self.on("foreach_final", 8) {
                    self.kw("final");
                }
                self.type_();
                self.ident();
                if self.on("foreach_dims", 2) {
                    self.ts(&["[", "]"]);
                }
                self.t(":");
                self.expr();
                self.t(")");
                self.body_stmt();
            }
            23 if self.on("nested_block", 100) => self.block(),
            24 if self.on("empty_stmt", 100) => self.t(";"),
            25 if self.on("do_while", 100) => {
                self.kw("do");
                self.block();
                self.kw("while");
                self.paren_expr();
                self.t(";");
            }
            26 if self.on("break", 100) => {
                self.kw("break");
                if self.on("break_label", 10) {
                    self.ident();
                }
                self.t(";");
            }
            27 if self.on("continue", 100) => {
                self.kw("continue");
                if self.on("continue_label", 10) {
                    self.ident();
                }
                self.t(";");
            }
            28..=32 if self.on("return", 100) => {
                self.kw("return");
                if self.r.pct(75) {
                    self.expr();
                }
                self.t(";");
            }
            33 | 34 if self.on("switch", 100) => self.switch_(),
            35 if self.on("throw", 100) => {
                self.kw("throw");
                self.expr();
                self.t(";");
            }
            36..=38 if self.on("try", 100) => {
                self.kw("try");
                self.block();
                let n = self.r.below(3);
                for _ in 0..n {
                    self.kw("catch");
                    self.t("(");
                    if self.on("catch_final", 5) {
                        self.kw("final");
                    }
                    self.type_nonarray();
                    self.ident();
                    self.t(")");
                    self.block();
                }
                if n == 0 || self.r.pct(30) {
                    self.kw("finally");
                    self.block();
                }
            }
            39 if self.on("run_as", 100) => {
                self.kw("System.runAs");
                self.paren_expr();
                self.block();
            }
            40..=43 if self.on("dml", 100) => {
                self.dml();
                self.t(";");
            }
            44 if self.on("local_class", 10) => self.class(),
            45 if self.on("local_method", 20) => {
                self.kw("void");
                self.ident();
                self.params();
                self.block();
            }
            _ => {
                // expression statement
                match self.r.below(10) {
                    0..=3 => self.assign(),
                    4 => {
                        self.ident();
                        self.alt_t(50, "++", "--");
                    }
                    _ => self.chain(true),
                }
                self.t(";");
            }
        }
        self.depth -= 1;
    }
    fn dml(&mut self) {
        let k = ["insert", "update", "delete", "undelete", "upsert", "merge"];
        let k = self.r.pick(&k).to_string();
        if k == "merge" && !self.on("merge", 100) {
            self.kw("insert");
            self.ident();
            return;
        }
        self.kw(&k);
        if self.on("dml_as", 15) {
            self.kw("as");
            self.alt_kw(50, "user", "system");
        }
        if k == "merge" {
            self.ident();
            self.out.push(P::OneSpace);
            self.ident();
            return;
        }
        if self.r.pct(70) {
            self.chain(false);
        } else {
            self.expr();
        }
        if k == "upsert" && self.on("upsert_key", 25) {
            self.dotted("Account.External_Id__c");
        }
    }
    fn if_(&mut self, n: usize) {
        self.kw("if");
        self.paren_expr();
        self.body_stmt();
        if self.r.pct(45) {
            self.kw("else");
            if n < 4 && self.r.pct(50) {
                self.if_(n + 1);
            } else {
                self.body_stmt();
            }
        }
    }
    fn for_(&mut self) {
        self.kw("for");
        self.t("(");
        match self.r.below(4) {
            0 if self.on("for_no_init", 100) => self.t(";"),
            1 if self.on("for_expr_init", 100) => {
                self.assign();
                if self.on("for_multi_init", 20) {
                    self.t(",");
                    self.assign();
                }
                self.t(";");
            }
            _ => {
                self.type_nonarray();
                self.ident();
                self.t("=");
                self.expr();
                if self.on("for_multi_decl", 15) {
                    self.t(",");
                    self.ident();
                    self.t("=");
                    self.expr();
                }
                self.t(";");
            }
        }
        if self.r.pct(85) {
            self.expr();
        }
        self.t(";");
        if self.r.pct(85) {
            let n = if self.on("for_multi_update", 15) { 2 } else { 1 };
            for i in 0..n {
                if i > 0 {
                    self.t(",");
                }
                if self.r.pct(70) {
                    self.ident();
                    self.t("++");
                } else {
                    self.assign();
                }
            }
        }
        self.t(")");
        self.body_stmt();
    }
    fn switch_(&mut self) {
        self.kw("switch");
        self.kw("on");
        self.expr();
        self.t("{");
        let n = self.r.range(1, 3);
        for i in 0..n {
            self.slot(Slot::StmtStart);
            self.kw("when");
            if i == n - 1 && self.r.pct(60) {
                self.kw("else");
            } else if self.on("when_sobject", 25) {
                let o = self.r.pick(OBJS).to_string();
                self.t(&o);
                self.ident();
            } else {
                let m = self.r.range(1, 3);
                for j in 0..m {
                    if j > 0 {
                        self.t(",");
                    }
                    match self.r.below(4) {
                        0 => self.string(),
                        1 => self.ident(),
                        2 => self.kw("null"),
                        _ => self.t("42"),
                    }
                }
            }
            self.block();
        }
        self.slot(Slot::BodyEnd);
        self.t("}");
    }

    // ---------- expressions ----------
    fn assign(&mut self) {
        match self.r.below(4) {
            0 => {
                self.ident();
                self.t(".");
                self.ident();
            }
            1 => {
                self.ident();
                self.t("[");
                self.expr();
                self.t("]");
            }
            _ => self.ident(),
        }
        let ops = ["=", "=", "=", "=", "+=", "-=", "*=", "/=", "&=", "|=", "^=", "%=", "<<=", ">>=", ">>>="];
        let o = self.r.pick(&ops).to_string();
        self.t(&o);
        self.expr();
    }
    pub fn string(&mut self) {
        let xs = [
            "''", "'a'", "'hello world'", "'it\\'s'", "'\\n\\t\\\\'", "'// not a comment'", "'/* nor this */'",
            "'{0} and {1}'", "'SELECT Id FROM Account'", "'100%'", "'\\u00e9'", "'a  double  space '", "' lead'",
            "'trail '", "';'", "','", "'{'", "'}'", "'a\"b'", "'TRUE null 1.5D'",
        ];
        let us = ["'héllo'", "'日本語テキスト'", "'—'", "'😀 emoji'",
            "'eine sehr lange Zeichenkette mit Überschrift und weiteren Wörtern, länger als jede vernünftige Zeile'"];
        if self.r.pct(12) {
            let s = format!("'{}'", crate::dict::get().phrase(&mut self.r));
            return self.t(&s);
        }
        let s = if self.on("unicode_str", 8) { self.r.pick(&us).to_string() } else { self.r.pick(&xs).to_string() };
        self.t(&s);
    }
    fn literal(&mut self) {
        match self.r.below(10) {
            0 | 1 => {
                let xs = ["0", "1", "42", "100L", "007", "1_000", "2147483647", "9l"];
                let s = self.r.pick(&xs).to_string();
                self.t(&s);
            }
            2 => {
                let xs = ["1.5", "0.0", "3.14d", "1.0D", "10.25", "1e5", "2.5E-3", "1.50F", "0.10", ".5"];
                let s = self.r.pick(&xs).to_string();
                self.t(&s);
            }
            3 => self.kw("true"),
            4 => self.kw("false"),
            5 => self.kw("null"),
            _ => self.string(),
        }
    }
    pub fn expr(&mut self) {
        self.depth += 1;
        let k = if self.poor() { self.r.below(30) } else { self.r.below(100) };
        match k {
            0..=14 => self.ident(),
            15..=29 => self.literal(),
            30..=47 => self.chain(false),
            48..=67 if self.on("binary", 100) => self.binary(),
            68..=71 if self.on("ternary", 100) => {
                self.operand();
                self.t("?");
                self.expr();
                self.t(":");
                self.expr();
            }
            72..=74 if self.on("unary", 100) => {
                let ops = ["!", "-", "~", "+"];
                let o = self.r.pick(&ops).to_string();
                self.t(&o);
                self.operand();
            }
            75 if self.on("update_expr", 100) => {
                if self.r.pct(50) {
                    self.ident();
                    self.alt_t(50, "++", "--");
                } else {
                    self.alt_t(50, "++", "--");
                    self.ident();
                }
            }
            76..=78 if self.on("cast", 100) => {
                self.t("(");
                self.type_();
                self.t(")");
                self.chain(false);
            }
            79 | 80 if self.on("instanceof", 100) => {
                self.ident();
                self.kw("instanceof");
                self.type_nonarray();
            }
            81 if self.on("assign_expr", 100) => self.paren_assign(),
            82..=88 if self.on("new", 100) => self.new_(),
            89..=91 if self.on("paren", 100) => self.paren_expr(),
            92..=95 if self.on("soql", 100) => self.query(),
            96 if self.on("sosl", 60) => self.sosl(),
            97 if self.on("class_literal", 100) => {
                let s = self.r.pick(TYPES).to_string();
                self.t(&s);
                self.t(".");
                self.kw("class");
            }
            98 if self.on("version_expr", 8) => {
                self.kw("Package");
                self.t(".");
                self.kw("Version");
                self.t(".");
                if self.r.pct(50) {
                    self.kw("Request");
                } else {
                    self.t("1.2");
                }
            }
            _ => self.chain(false),
        }
        self.depth -= 1;
    }
    fn paren_assign(&mut self) {
        self.t("(");
        self.assign();
        self.t(")");
    }
    fn operand(&mut self) {
        match self.r.below(10) {
            0..=3 => self.ident(),
            4 | 5 => self.literal(),
            6 if !self.poor() => self.paren_expr(),
            _ => self.chain(false),
        }
    }
    fn binary(&mut self) {
        let groups: [&[&str]; 8] = [
            &["+", "-"],
            &["*", "/", "%"],
            &["&&"],
            &["||"],
            &["==", "!=", "<>", "===", "!=="],
            &["<", ">", "<=", ">="],
            &["&", "|", "^", "<<", ">>", ">>>"],
            &["??"],
        ];
        let n = if self.r.pct(30) { self.r.range(3, 7) } else { self.r.range(1, 2) };
        let uniform = self.r.pct(50);
        let mut g = self.r.below(8);
        if self.r.pct(40) {
            g = self.r.below(4);
        }
        for i in 0..=n {
            if i > 0 {
                if !uniform {
                    g = self.r.below(8);
                    if self.r.pct(60) {
                        g = self.r.below(6);
                    }
                }
                if g == 7 && self.off.contains("coalesce") {
                    g = 0;
                }
                let o = self.r.pick(groups[g]).to_string();
                self.t(&o);
            }
            if self.r.pct(6) && !self.off.contains("unary") {
                let ops = ["!", "-", "~"];
                let o = self.r.pick(&ops).to_string();
                self.t(&o);
            }
            self.operand();
        }
    }
    fn args(&mut self) {
        self.t("(");
        let n = if self.poor() { 0 } else { [0, 0, 1, 1, 1, 2, 2, 3, 4][self.r.below(9)] };
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            self.expr();
        }
        self.t(")");
    }
    /// primary expression with a navigation chain
    fn chain(&mut self, must_call: bool) {
        self.depth += 1;
        let mut can_start_call = true;
        match self.r.below(14) {
            0 => {
                self.kw("this");
                can_start_call = false;
            }
            1 if self.on("super", 40) => {
                self.kw("super");
                self.t(".");
                self.ident();
                self.args();
                can_start_call = false;
            }
            2 if !self.poor() && self.on("chain_paren", 60) => {
                self.t("(");
                self.expr();
                self.t(")");
                can_start_call = false;
            }
            3 if !self.poor() && self.on("chain_new", 60) => {
                self.new_obj();
                can_start_call = false;
            }
            4 if !self.poor() && self.on("chain_query", 25) => {
                self.query();
                can_start_call = false;
            }
            5 if self.on("chain_str", 30) => {
                self.string();
                can_start_call = false;
            }
            6 if self.on("chain_generic", 6) => {
                // Type literal with generics
                self.ts(&["List", "<", "String", ">", ".", "class"]);
                can_start_call = false;
            }
            _ => self.ident(),
        }
        if can_start_call && self.r.pct(35) {
            self.args();
        }
        let n = if self.poor() { 0 } else { [0, 0, 1, 1, 1, 2, 2, 3, 5][self.r.below(9)] };
        let mut called = false;
        for _ in 0..n {
            if self.on("array_access", 10) {
                self.t("[");
                self.expr();
                self.t("]");
                called = false;
                continue;
            }
            if self.on("safe_nav", 12) {
                self.t("?.");
            } else {
                self.t(".");
            }
            self.ident();
            called = false;
            if self.r.pct(60) {
                self.args();
                called = true;
            }
        }
        if must_call && !called {
            self.t(".");
            self.ident();
            self.args();
        }
        self.depth -= 1;
    }
    fn new_obj(&mut self) {
        self.kw("new");
        self.type_nonarray();
        self.t("(");
        let n = if self.poor() { 0 } else { self.r.below(4) };
        let named = self.on("sobject_ctor", 50);
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            if named {
                self.ident();
                self.t("=");
            }
            self.expr();
        }
        self.t(")");
    }
    fn new_(&mut self) {
        match self.r.below(8) {
            0 if self.on("new_map_init", 100) => {
                self.kw("new");
                self.ts(&["Map", "<"]);
                self.type_();
                self.t(",");
                self.type_();
                self.t(">");
                self.t("{");
                let n = if self.off.contains("map_init_empty") { self.r.range(1, 3) } else { self.r.below(4) };
                for i in 0..n {
                    if i > 0 {
                        self.t(",");
                    }
                    self.expr_no_assign();
                    self.t("=>");
                    self.expr_no_assign();
                }
                self.t("}");
            }
            1 | 2 if self.on("new_list_init", 100) => {
                self.kw("new");
                self.alt_t(60, "List", "Set");
                self.t("<");
                self.type_();
                self.t(">");
                self.array_init();
            }
            3 if self.on("new_array_init", 100) => {
                self.kw("new");
                self.type_nonarray();
                self.ts(&["[", "]"]);
                self.array_init();
            }
            4 if self.on("new_array_size", 100) => {
                self.kw("new");
                self.type_nonarray();
                self.t("[");
                self.expr();
                self.t("]");
                if self.on("new_array_size_2d", 15) {
                    self.ts(&["[", "]"]);
                }
            }
            5 if self.on("anon_class", 3) => {
                self.kw("new");
                self.type_nonarray();
                self.ts(&["(", ")"]);
                self.class_body();
            }
            _ => self.new_obj(),
        }
    }
    fn expr_no_assign(&mut self) {
        self.expr();
    }

    // ---------- SOQL ----------
    pub fn query(&mut self) {
        self.t("[");
        self.soql_body(0);
        self.t("]");
    }
    fn field(&mut self) {
        let f = self.r.pick(FIELDS).to_string();
        self.dotted(&f);
    }
    fn agg(&mut self) {
        let fs = ["COUNT", "SUM", "MAX", "MIN", "AVG", "toLabel", "format", "CALENDAR_YEAR"];
        let f = self.r.pick(&fs).to_string();
        self.t(&f);
        self.t("(");
        if self.on("nested_func", 10) {
            self.t("convertCurrency");
            self.t("(");
            self.field();
            self.t(")");
        } else {
            self.field();
        }
        self.t(")");
    }
    fn bound(&mut self) {
        self.t(":");
        let p = !self.poor();
        match self.r.below(6) {
            0 if p && self.on("bound_complex", 50) => self.chain(false),
            1 if p && self.on("bound_binary", 20) => {
                self.ident();
                self.t("+");
                self.ident();
            }
            2 => {
                self.ident();
                self.t(".");
                self.ident();
            }
            _ => self.ident(),
        }
    }
    pub fn soql_body(&mut self, nest: usize) {
        self.depth += 2;
        self.qkw("SELECT");
        if nest == 0 && self.on("count_star", 6) {
            self.t("COUNT");
            self.ts(&["(", ")"]);
        } else {
            let n = self.r.range(1, 5);
            for i in 0..n {
                if i > 0 {
                    self.t(",");
                }
                match self.r.below(20) {
                    0 | 1 if self.on("soql_agg", 100) => {
                        self.agg();
                        if self.on("soql_alias", 50) {
                            self.ident_ascii();
                        }
                    }
                    2 if nest == 0 && self.on("soql_subquery", 100) => {
                        self.t("(");
                        self.soql_body(1);
                        self.t(")");
                    }
                    3 if self.on("soql_fields_fn", 60) => {
                        self.qkw("FIELDS");
                        self.t("(");
                        let k = ["ALL", "CUSTOM", "STANDARD"];
                        let k = self.r.pick(&k).to_string();
                        self.qkw(&k);
                        self.t(")");
                    }
                    4 if self.on("typeof", 30) => {
                        self.qkw("TYPEOF");
                        self.t("What");
                        self.qkw("WHEN");
                        self.t("Account");
                        self.qkw("THEN");
                        self.t("Phone");
                        self.t(",");
                        self.t("Name");
                        if self.r.pct(50) {
                            self.qkw("ELSE");
                            self.t("Name");
                        }
                        self.qkw("END");
                    }
                    _ => self.field(),
                }
            }
        }
        self.qkw("FROM");
        if nest > 0 {
            self.dotted("Contacts__r");
        } else {
            let o = self.r.pick(OBJS).to_string();
            self.t(&o);
            if self.on("from_alias", 10) {
                if self.on("from_as", 40) {
                    self.qkw("AS");
                }
                self.ident_ascii();
                if self.on("from_multi", 30) {
                    self.t(",");
                    self.dotted("acc.Contacts");
                    self.ident_ascii();
                }
            }
        }
        if self.on("using_scope", 6) {
            self.qkw("USING");
            self.qkw("SCOPE");
            let k = ["delegated", "everything", "mine", "team"];
            let k = self.r.pick(&k).to_string();
            self.kw(&k);
        }
        if self.on("where", 60) {
            self.qkw("WHERE");
            self.cond(0);
        }
        if self.on("with", 15) {
            self.qkw("WITH");
            match self.r.below(6) {
                0 => self.t("SECURITY_ENFORCED"),
                1 => self.t("USER_MODE"),
                2 => self.t("SYSTEM_MODE"),
                3 if self.on("with_userid", 60) => {
                    self.t("UserId");
                    self.t("=");
                    self.t("'005000000'");
                }
                4 if self.on("with_datacat", 60) => {
                    self.qkw("DATA CATEGORY");
                    self.t("Geo__c");
                    let k = ["AT", "ABOVE", "BELOW", "ABOVE_OR_BELOW"];
                    let k = self.r.pick(&k).to_string();
                    self.qkw(&k);
                    if self.r.pct(50) {
                        self.ts(&["(", "usa__c", ",", "uk__c", ")"]);
                    } else {
                        self.t("usa__c");
                    }
                    if self.r.pct(40) {
                        self.qkw("AND");
                        self.ts(&["Product__c", "BELOW", "mobile__c"]);
                    }
                }
                5 if self.on("with_recvis", 40) => {
                    self.t("RecordVisibilityContext");
                    self.ts(&["(", "maxDescriptorPerRecord", "=", "100", ",", "supportsDomains", "=", "true", ")"]);
                }
                _ => self.t("SECURITY_ENFORCED"),
            }
        }
        if self.on("group_by", 12) {
            self.qkw("GROUP BY");
            let n = self.r.range(1, 3);
            for i in 0..n {
                if i > 0 {
                    self.t(",");
                }
                if self.on("group_by_fn", 20) {
                    self.t("ROLLUP");
                    self.t("(");
                    self.field();
                    self.t(")");
                } else {
                    self.field();
                }
            }
            if self.on("having", 40) {
                self.qkw("HAVING");
                self.cond(0);
            }
        }
        if self.on("order_by", 30) {
            self.qkw("ORDER BY");
            let n = self.r.range(1, 3);
            for i in 0..n {
                if i > 0 {
                    self.t(",");
                }
                if self.r.pct(15) {
                    self.agg();
                } else {
                    self.field();
                }
                if self.r.pct(50) {
                    self.alt_qkw(50, "ASC", "DESC");
                }
                if self.r.pct(25) {
                    self.alt_qkw(50, "NULLS FIRST", "NULLS LAST");
                }
            }
        }
        if self.on("limit", 25) {
            self.qkw("LIMIT");
            if self.r.pct(60) {
                self.t("10");
            } else {
                self.bound();
            }
        }
        if self.on("offset", 10) {
            self.qkw("OFFSET");
            if self.r.pct(60) {
                self.t("5");
            } else {
                self.bound();
            }
        }
        if nest == 0 {
            let has_for = self.on("for_clause", 10);
            if has_for {
                self.qkw("FOR");
                let k = ["UPDATE", "VIEW", "REFERENCE"];
                let k = self.r.pick(&k).to_string();
                self.qkw(&k);
                if self.on("for_clause_multi", 20) {
                    self.t(",");
                    self.qkw("VIEW");
                }
            }
            if self.on("update_clause", 4) {
                self.qkw("UPDATE");
                self.qkw("TRACKING");
                if self.r.pct(40) {
                    self.t(",");
                    self.qkw("VIEWSTAT");
                }
            }
            if (!has_for || self.on("for_and_all_rows", 10)) && self.on("all_rows", 6) {
                self.qkw("ALL ROWS");
            }
        }
        self.depth -= 2;
    }
    fn ident_ascii(&mut self) {
        let xs = ["cnt", "total", "alias1", "acc", "o_x"];
        let s = self.r.pick(&xs).to_string();
        self.t(&s);
    }
    /// boolean condition
    pub fn cond(&mut self, d: usize) {
        match if d > 3 || self.poor() { 0 } else { self.r.below(6) } {
            0 | 1 => self.comparison(),
            2 | 3 => {
                let n = self.r.range(2, 4);
                for i in 0..n {
                    if i > 0 {
                        self.qkw("AND");
                    }
                    self.cond_atom(d);
                }
            }
            4 => {
                let n = self.r.range(2, 4);
                for i in 0..n {
                    if i > 0 {
                        self.qkw("OR");
                    }
                    self.cond_atom(d);
                }
            }
            _ if self.on("soql_not", 100) => {
                self.qkw("NOT");
                self.cond_atom(d);
            }
            _ => self.comparison(),
        }
    }
    fn cond_atom(&mut self, d: usize) {
        if self.r.pct(45) && !self.poor() {
            self.t("(");
            self.cond(d + 1);
            self.t(")");
        } else {
            self.comparison();
        }
    }
    fn comparison(&mut self) {
        if self.on("cmp_agg", 8) {
            self.agg();
        } else if self.on("geo", 3) {
            self.t("DISTANCE");
            self.t("(");
            self.t("Loc__c");
            self.t(",");
            self.t("GEOLOCATION");
            self.ts(&["(", "37.775", ",", "-122.418", ")"]);
            self.t(",");
            self.t("'mi'");
            self.t(")");
        } else {
            self.field();
        }
        if self.on("set_cmp", 25) {
            let k = ["IN", "NOT IN", "INCLUDES", "EXCLUDES"];
            let k = self.r.pick(&k).to_string();
            self.qkw(&k);
            match self.r.below(4) {
                0 => self.bound(),
                1 if k.ends_with("IN") && self.on("set_subquery", 40) && !self.poor() => {
                    self.t("(");
                    self.soql_body(2);
                    self.t(")");
                }
                _ => {
                    self.t("(");
                    let n = self.r.range(1, 4);
                    for i in 0..n {
                        if i > 0 {
                            self.t(",");
                        }
                        if self.r.pct(20) {
                            self.bound();
                        } else {
                            self.soql_lit();
                        }
                    }
                    self.t(")");
                }
            }
        } else {
            let ops = ["=", "!=", "<>", "<", "<=", ">", ">=", "LIKE"];
            let o = self.r.pick(&ops).to_string();
            self.qkw(&o);
            if self.r.pct(40) {
                self.bound();
            } else {
                self.soql_lit();
            }
        }
    }
    fn soql_lit(&mut self) {
        match self.r.below(12) {
            0 | 1 => self.t("10"),
            2 | 3 | 4 => self.string(),
            5 => self.qkw("TRUE"),
            6 => self.kw("false"),
            7 => self.kw("null"),
            8 => {
                let k = ["TODAY", "YESTERDAY", "LAST_WEEK", "THIS_FISCAL_YEAR", "LAST_90_DAYS", "NEXT_MONTH"];
                let k = self.r.pick(&k).to_string();
                self.qkw(&k);
            }
            9 => {
                let k = ["LAST_N_DAYS", "NEXT_N_WEEKS", "N_MONTHS_AGO", "LAST_N_QUARTERS"];
                let k = self.r.pick(&k).to_string();
                self.qkw(&k);
                self.glue();
                self.t(":");
                self.glue();
                self.t("30");
            }
            10 => match self.r.below(4) {
                0 if self.on("soql_datetime", 100) => self.t("2024-01-02T03:04:05Z"),
                1 if self.on("soql_currency", 100) => self.t("USD500"),
                2 if self.on("soql_decimal", 100) => self.t("-1.50"),
                _ => self.t("2024-01-02"),
            },
            _ => self.t("1.5"),
        }
    }
    // ---------- SOSL ----------
    pub fn sosl(&mut self) {
        self.t("[");
        self.qkw("FIND");
        if self.r.pct(50) {
            self.bound();
        } else {
            self.t("'");
            self.glue();
            self.t("some Term*");
            self.glue();
            self.t("'");
        }
        if self.r.pct(50) {
            self.qkw("IN");
            let k = ["ALL", "EMAIL", "NAME", "PHONE", "SIDEBAR"];
            let k = self.r.pick(&k).to_string();
            self.qkw(&k);
            self.qkw("FIELDS");
        }
        if self.on("sosl_returning", 80) {
            self.qkw("RETURNING");
            let n = self.r.range(1, 3);
            for i in 0..n {
                if i > 0 {
                    self.t(",");
                }
                let o = self.r.pick(OBJS).to_string();
                self.t(&o);
                if self.r.pct(70) {
                    self.t("(");
                    let m = self.r.range(1, 3);
                    for j in 0..m {
                        if j > 0 {
                            self.t(",");
                        }
                        self.field();
                    }
                    if self.on("sosl_listview", 5) {
                        self.qkw("USING");
                        self.t("ListView");
                        self.ts(&["=", "Recent"]);
                    }
                    if self.on("sosl_where", 35) {
                        self.qkw("WHERE");
                        self.cond(1);
                    }
                    if self.on("sosl_order", 20) {
                        self.qkw("ORDER BY");
                        self.field();
                        self.qkw("DESC");
                    }
                    if self.r.pct(20) {
                        self.qkw("LIMIT");
                        self.t("3");
                    }
                    if self.on("sosl_ret_offset", 10) {
                        self.qkw("OFFSET");
                        self.t("3");
                    }
                    self.t(")");
                }
            }
        }
        if self.on("sosl_with", 30) {
            self.qkw("WITH");
            match self.r.below(9) {
                0 => {
                    self.qkw("DIVISION");
                    self.t("=");
                    self.t("'Global'");
                }
                1 => self.qkw("HIGHLIGHT"),
                2 => {
                    self.qkw("METADATA");
                    self.t("=");
                    self.t("'LABELS'");
                }
                3 => {
                    self.qkw("NETWORK");
                    self.t("=");
                    self.t("'abc'");
                }
                4 => {
                    self.t("PricebookId");
                    self.t("=");
                    self.t("'abc'");
                }
                5 => {
                    self.qkw("SNIPPET");
                    if self.r.pct(60) {
                        self.ts(&["(", "target_length", "=", "120", ")"]);
                    }
                }
                6 => {
                    self.qkw("SPELL_CORRECTION");
                    self.t("=");
                    self.t("false");
                }
                7 => {
                    self.qkw("NETWORK");
                    self.qkw("IN");
                    self.ts(&["(", "'abc'", ",", "'def'", ")"]);
                }
                _ => {
                    self.qkw("DATA CATEGORY");
                    self.ts(&["Geo__c", "AT", "usa__c"]);
                }
            }
        }
        if self.on("sosl_using", 6) {
            self.qkw("USING");
            self.alt_qkw(50, "PHRASE SEARCH", "ADVANCED SEARCH");
        }
        if self.r.pct(25) {
            self.qkw("LIMIT");
            self.t("10");
        }
        if self.on("sosl_offset", 6) {
            self.qkw("OFFSET");
            self.t("2");
        }
        if self.on("sosl_update", 6) {
            self.qkw("UPDATE");
            self.qkw("TRACKING");
        }
        self.t("]");
    }
}
