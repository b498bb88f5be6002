//! C33: statements that are not well formed.
use super::*;
use super::lexical::DIALECTS;

/// Clause keywords that can never stand twice in a row
const CLAUSE: &[&str] = &[
    "SELECT", "FROM", "WHERE", "GROUP", "BY", "ORDER", "HAVING", "LIMIT", "VALUES", "INTO", "JOIN", "ON", "USING", "AS", "TABLE", "PRIMARY", "FOREIGN", "REFERENCES", "IN", "LIKE", "AND", "OR", "XOR",
    "IS", "WHEN", "THEN", "ELSE", "INTERVAL", "CAST", "UPDATE", "DELETE", "INSERT", "DROP", "CREATE", "ALTER", "EXISTS", "UNION", "WITH", "SET", "CASE", "BETWEEN", "OVER", "KEY", "INNER", "LEFT",
    "CROSS", "DISTINCT", "ALL", "FOR", "RETURNING", "REPLACE", "DEFAULT", "UNIQUE", "CHECK", "CONSTRAINT", "TO", "IF",
];
/// Keywords something must follow
const OPEN: &[&str] = &[
    "SELECT", "FROM", "WHERE", "GROUP", "BY", "ORDER", "HAVING", "LIMIT", "VALUES", "INTO", "JOIN", "ON", "USING", "AS", "TABLE", "PRIMARY", "FOREIGN", "REFERENCES", "IN", "LIKE", "AND", "OR", "XOR", "IS",
    "WHEN", "THEN", "ELSE", "INTERVAL", "CAST", "UPDATE", "DELETE", "INSERT", "DROP", "CREATE", "ALTER", "EXISTS", "UNION", "WITH", "SET", "NOT", "CASE", "BETWEEN", "OVER", "DIV", "MOD",
];
const BINARY: &[&str] = &["/", "=", "<", ">", "<=", ">=", "<>", "!=", "||", "&&", "<<", ">>", "|", "&", "%", "<=>", "AND", "OR", "XOR", "DIV", "MOD", "IN", "LIKE", "IS", "AS", "."];

fn op(t: &str) -> Tok {
    Tok { k: K::Op, t: t.into(), ex: false }
}
fn is(t: &Tok, v: &[&str]) -> bool {
    matches!(t.k, K::Op | K::Kw) && v.iter().any(|x| t.t.eq_ignore_ascii_case(x))
}

pub fn damage(toks: &mut Vec<Tok>, r: &mut Rng) -> Option<String> {
    let find = |v: &[&str], r: &mut Rng| -> Option<usize> {
        let p: Vec<usize> = toks.iter().enumerate().filter(|(_, t)| is(t, v)).map(|p| p.0).collect();
        (!p.is_empty()).then(|| p[r.n(p.len())])
    };
    Some(match r.n(9) {
        0 => {
            let i = find(&[",", ".", "=", "<", ">", "<=", ">=", "<>", "!=", "/", "<<", ">>", "|", "||", "&&", "&", "^"], r)?;
            let t = toks[i].clone();
            toks.insert(i, t.clone());
            format!("double.{}", t.t)
        }
        1 => {
            let i = find(&["("], r)?;
            toks.insert(i + 1, op(","));
            "comma_after_paren".into()
        }
        2 => {
            let i = find(&[")"], r)?;
            toks.insert(i, op(","));
            "comma_before_paren".into()
        }
        3 => {
            let i = find(CLAUSE, r)?;
            let t = toks[i].clone();
            // What the parser takes more than once, and the function IF
            if is(&t, &["ALL", "DISTINCT", "UNIQUE", "IF"]) {
                return None;
            }
            toks.insert(i, t.clone());
            format!("double.{}", t.t.to_uppercase())
        }
        4 => {
            let i = find(&[")", ","], r)?;
            let b = *r.pick(BINARY);
            toks.insert(i, Tok { k: if b.as_bytes()[0].is_ascii_alphabetic() { K::Kw } else { K::Op }, t: b.into(), ex: false });
            format!("{b} before {}", toks[i + 1].t)
        }
        5 => {
            let i = find(&["(", ","], r)?;
            let b = *r.pick(BINARY);
            if b == "IN" && toks.iter().any(|t| is(t, &["FUNCTION"])) {
                return None;
            }
            toks.insert(i + 1, Tok { k: if b.as_bytes()[0].is_ascii_alphabetic() { K::Kw } else { K::Op }, t: b.into(), ex: false });
            format!("{b} after {}", toks[i].t)
        }
        6 => {
            let p: Vec<usize> = toks.iter().enumerate().filter(|(_, t)| t.k == K::Num).map(|p| p.0).collect();
            if p.is_empty() {
                return None;
            }
            let i = p[r.n(p.len())];
            toks.insert(i, Tok { k: K::Num, t: "1".into(), ex: false });
            "double number".into()
        }
        7 => {
            let i = find(OPEN, r)?;
            let t = toks[i].t.clone();
            if i > 0 && is(&toks[i], &["UPDATE"]) && is(&toks[i - 1], &["FOR", "KEY"]) {
                return None;
            }
            toks.truncate(i + 1);
            format!("cut after {}", t.to_uppercase())
        }
        _ => {
            let i = find(&[",", ".", "(", "=", "+", "-", "/", "<", ">", "<=", ">=", "||", "&&", "|"], r)?;
            let t = toks[i].t.clone();
            toks.truncate(i + 1);
            format!("cut after {t}")
        }
    })
}


/// Texts that are right or wrong, in `{{ right ||| wrong ||| … }}`.
///
/// Words are separated by spaces; upper case words are keywords, lower case ones names, {e} is an
/// expression, {x} a short one, {t} a table name, {i} a name, {n} a number, {s} a string, {q} a query.
const STATEMENTS: &[(u8, &str)] = &[
    // Clauses in the wrong order, twice, or without what belongs to them
    (ALL, "SELECT {e} FROM {t} {{ WHERE {x} GROUP BY {i} ||| GROUP BY {i} WHERE {x} ||| WHERE {x} GROUP {i} ||| WHERE {x} BY {i} ||| WHERE GROUP BY {i} ||| WHERE {x} GROUP BY }}"),
    (ALL, "SELECT {e} FROM {t} {{ GROUP BY {i} HAVING {x} ||| HAVING {x} GROUP BY {i} ||| GROUP BY {i} HAVING ||| HAVING {x} HAVING {x} ||| GROUP BY {i} GROUP BY {i} ||| GROUP BY {i} , HAVING {x} }}"),
    (ALL, "SELECT {e} FROM {t} {{ WHERE {x} ORDER BY {i} ||| ORDER BY {i} WHERE {x} ||| WHERE {x} WHERE {x} ||| ORDER BY {i} ORDER BY {i} ||| WHERE {x} ORDER {i} ||| WHERE ORDER BY {i} }}"),
    (ALL, "SELECT {e} FROM {t} {{ ORDER BY {x} LIMIT {n} ||| LIMIT {n} ORDER BY {x} ||| ORDER BY LIMIT {n} ||| ORDER BY {x} LIMIT ||| LIMIT {n} LIMIT {n} ||| ORDER BY {x} ASC DESC ||| ORDER BY , {x} ||| ORDER BY {x} , }}"),
    (ALL, "SELECT {e} FROM {t} LIMIT {{ {n} , {n} ||| , {n} ||| {n} , ||| {n} , {n} , {n} ||| {n} {n} }}"),
    (ALL, "SELECT {{ {e} ||| ||| , {e} ||| {e} , ||| {e} , , {e} }} FROM {t}"),
    (ALL, "SELECT {e} FROM {{ {t} ||| ||| {t} , ||| , {t} ||| {n} ||| 'b' ||| WHERE 1 ||| {t} . ||| ( {t} }}"),
    (ALL, "SELECT {e} FROM ( {q} ) {{ a ||| a a ||| AS ||| AS 1 ||| . a }}"),
    (ALL, "SELECT {e} {{ AS a ||| AS ||| AS AS a ||| AS 1 ||| AS a AS b ||| AS ( a ) }} FROM {t}"),
    (ALL, "SELECT {e} FROM {t} {{ JOIN {t} ON {x} ||| JOIN ON {x} ||| JOIN {t} ON ||| JOIN , {t} ||| JOIN JOIN {t} ON {x} ||| ON {x} ||| LEFT {t} ON {x} ||| INNER {t} ON {x} ||| NATURAL CROSS JOIN {t} ||| RIGHT LEFT JOIN {t} ON {x} ||| OUTER JOIN {t} ON {x} }}"),
    (ALL, "SELECT {e} FROM {t} JOIN {t} USING ( {{ {i} ||| ||| {i} , ||| , {i} ||| {n} ||| 'b' ||| {i} {i} }} )"),
    (M, "SELECT {e} FROM {t} {{ USE INDEX ||| USE ||| USE INDEX USE ||| INDEX }} ( {i} )"),
    (M, "SELECT {e} FROM {t} USE INDEX FOR {{ ORDER BY ||| ORDER ||| WHERE ||| BY }} ( {i} )"),
    (ALL, "SELECT {e} {{ UNION ALL ||| UNION UNION ||| ALL ||| UNION ALL ALL ||| UNION , ||| UNION ALL UNION }} SELECT {e}"),
    (ALL, "SELECT {e} UNION {{ SELECT {e} ||| ||| {n} ||| {i} ||| FROM {t} ||| WHERE {x} ||| INSERT INTO {t} VALUES ( 1 ) }}"),
    (ALL, "SELECT {e} UNION ( {q} ) {{ ORDER BY a ||| FROM {t} ||| WHERE {x} ||| GROUP BY a ||| AND 1 ||| , {x} }}"),
    (ALL, "SELECT {e} FROM {t} FOR {{ UPDATE ||| ||| {i} ||| UPDATE UPDATE ||| SELECT ||| UPDATE NOWAIT NOWAIT ||| UPDATE SKIP ||| UPDATE OF ||| UPDATE WHERE {x} }}"),
    (P, "WITH a AS {{ ( SELECT {x} FROM {t} ) ||| SELECT {x} FROM {t} ||| ||| ( ) ||| ( DROP TABLE b ) ||| ( SELECT {x} FROM {t} ) , ||| ( SELECT {x} FROM {t} ) b AS ( SELECT {x} FROM {t} ) ||| ( a ) ||| ( ( SELECT {x} FROM {t} }} SELECT {x}"),
    (P, "WITH {{ a AS ( SELECT {x} FROM {t} ) ||| AS ( SELECT {x} FROM {t} ) ||| a ( SELECT {x} FROM {t} ) ||| a , b AS ( SELECT {x} FROM {t} ) ||| 1 AS ( SELECT {x} FROM {t} ) ||| , a AS ( SELECT {x} FROM {t} ) }} SELECT {x}"),
    (P, "WITH a AS ( SELECT {x} FROM {t} ) {{ SELECT {x} ||| ||| DROP TABLE a ||| {n} ||| a ||| CREATE TABLE a ( b INT ) ||| TRUNCATE TABLE a ||| SET a = 1 ||| COMMIT }}"),
    (P, "SELECT f ( a ) OVER {{ ( ORDER BY b ) ||| ||| ( ORDER b ) ||| ( WHERE b ) ||| ( ORDER BY ) ||| ORDER BY b ||| ( ORDER BY b ||| 1 }} FROM {t}"),
    // INSERT and REPLACE
    (ALL, "INSERT INTO {t} {{ ( {i} ) VALUES ( {x} ) ||| ( {i} ) SET a = {x} ||| ( {i} , ) VALUES ( {x} ) ||| ( , {i} ) VALUES ( {x} ) ||| ( {n} ) VALUES ( {x} ) ||| {i} VALUES ( {x} ) ||| ( {i} ) ( {x} ) ||| ( {i} ) WHERE {x} ||| ( {i} ) }}"),
    (ALL, "INSERT INTO {t} VALUES {{ ( {x} ) , ( {x} ) ||| {y} ||| ||| ( {x} , ) ||| ( , {x} ) ||| ( {x} ) , ||| ( {x} ) ( {x} ) ||| , ( {x} ) ||| ( {x} ) VALUES ( {x} ) ||| ( {x} ) WHERE {x} ||| ( SELECT }}"),
    (ALL, "INSERT INTO {{ {t} ||| ||| INTO {t} ||| {t} , {t} ||| {n} ||| 'b' ||| ( {t} ) }} VALUES ( {x} )"),
    (ALL, "INSERT INTO {t} {{ SET a = {x} ||| SET a {x} ||| SET = {x} ||| SET a = ||| SET a = {x} , ||| SET ||| SET , a = {x} ||| a = {x} ||| SET a = {x} b = {x} ||| SET a = {x} VALUES ( {x} ) ||| SET a = {x} WHERE {x} }}"),
    (ALL, "{{ REPLACE INTO ||| REPLACE HIGH_PRIORITY INTO ||| REPLACE IGNORE INTO ||| REPLACE DELAYED HIGH_PRIORITY INTO ||| REPLACE INSERT INTO ||| REPLACE INTO INTO ||| INTO }} {t} VALUES ( {x} )"),
    (ALL, "REPLACE INTO {t} {{ ( {i} ) VALUES ( {x} ) ||| ( {i} ) SET a = {x} ||| ( {i} ) ||| VALUES {y} ||| ||| ( {i} ) VALUES ( {x} ) , }}"),
    (M, "INSERT INTO {t} VALUES ( {x} ) ON {{ DUPLICATE KEY UPDATE a = {x} ||| DUPLICATE UPDATE a = {x} ||| DUPLICATE KEY a = {x} ||| DUPLICATE KEY UPDATE ||| KEY UPDATE a = {x} ||| DUPLICATE KEY UPDATE a ||| DUPLICATE KEY UPDATE a = {x} , ||| {x} ||| DUPLICATE KEY UPDATE a = }}"),
    (P, "INSERT INTO {t} VALUES ( {x} ) ON CONFLICT DO {{ NOTHING ||| ||| SELECT 1 ||| UPDATE a = {x} ||| UPDATE SET ||| UPDATE SET a ||| {i} ||| NOTHING UPDATE SET a = {x} }}"),
    (ALL, "INSERT INTO {t} VALUES ( {x} ) {{ RETURNING a ||| RETURNING ||| RETURNING , a ||| RETURNING a , ||| RETURNING a RETURNING b ||| WHERE {x} ||| FROM {t} }}"),
    // UPDATE and DELETE
    (ALL, "UPDATE {t} {{ SET a = {x} WHERE {x} ||| WHERE {x} SET a = {x} ||| SET WHERE {x} ||| a = {x} WHERE {x} ||| SET a = WHERE {x} ||| SET a {x} WHERE {x} ||| SET a = {x} , WHERE {x} ||| SET a = {x} {x2} WHERE {x} ||| SET a = {x} FROM b ||| SET a , b = {x} ||| SET 1 = {x} ||| SET ( a ) = {x} ||| WHERE {x} ||| }}"),
    (ALL, "UPDATE {{ {t} ||| ||| FROM {t} ||| {t} , ||| , {t} ||| INTO {t} ||| {n} ||| 'b' }} SET a = {x}"),
    (ALL, "DELETE FROM {t} {{ WHERE {x} ||| WHERE ||| ( {x} ) ||| WHERE {x} WHERE {x} ||| SET a = 1 ||| , ||| WHERE {x} , {x} ||| VALUES ( 1 ) ||| HAVING {x} ||| GROUP BY a }}"),
    (ALL, "DELETE {{ a FROM {t} ||| a ||| FROM ||| a , FROM {t} ||| , a FROM {t} ||| FROM FROM {t} ||| a FROM {t} USING {t} ||| INTO {t} ||| FROM 1 }}"),
    (ALL, "TRUNCATE {{ TABLE {t} ||| ||| TABLE ||| TABLE {t} , {t} ||| TABLE TABLE ||| TABLE {n} ||| {t} WHERE {x} ||| TABLE {t} {t} }}"),
    // Tables
    (ALL, "CREATE TABLE {t} {{ ( a INT ) ||| ||| a INT ||| ( a INT ||| ( a INT , ) ||| ( , a INT ) ||| ( a INT b INT ) ||| ( a ) ||| ( INT ) ||| ( a 1 ) ||| ( a INT ) ( b INT ) ||| ( a INT INT ) ||| ( 1 INT ) ||| ( a b INT ) ||| ( a 'b' ) }}"),
    (ALL, "CREATE TABLE {{ {t} ||| ||| {n} ||| {t} , {t} ||| IF {t} ||| IF EXISTS {t} ||| NOT EXISTS {t} ||| IF NOT {t} ||| 'b' }} ( a INT )"),
    (ALL, "CREATE TABLE {t} ( a INT {{ NOT NULL ||| NOT ||| NOT NOT NULL ||| NULL NOT ||| DEFAULT ||| NOT 1 ||| COMMENT ||| COMMENT 1 ||| COMMENT b ||| DEFAULT , ||| PRIMARY ||| CHECK ||| CHECK ( ) ||| COLLATE ||| CHARACTER utf8 ||| AS }} )"),
    (ALL, "CREATE TABLE {t} ( a INT , {{ CONSTRAINT c FOREIGN KEY ( a ) REFERENCES b ( c ) ||| CONSTRAINT c FOREIGN ( a ) REFERENCES b ( c ) ||| CONSTRAINT c FOREIGN KEY ( a ) b ( c ) ||| CONSTRAINT c FOREIGN KEY ( a ) REFERENCES ( c ) ||| CONSTRAINT c FOREIGN KEY ( ) REFERENCES b ( c ) ||| CONSTRAINT c FOREIGN KEY ( a ) REFERENCES b ( ) ||| CONSTRAINT c FOREIGN KEY ( a ) ||| CONSTRAINT c FOREIGN KEY ( a ) REFERENCES ||| CONSTRAINT c FOREIGN KEY REFERENCES b ( c ) ||| CONSTRAINT c FOREIGN KEY ( a ) REFERENCES b ( c ) ON ||| CONSTRAINT c FOREIGN KEY ( a ) REFERENCES b ( c ) CASCADE ||| CONSTRAINT c ||| CONSTRAINT FOREIGN KEY ( a ) REFERENCES b ( c ) ||| c FOREIGN KEY ( a ) REFERENCES b ( c ) ||| CONSTRAINT 1 FOREIGN KEY ( a ) REFERENCES b ( c ) ||| CONSTRAINT c FOREIGN KEY ( a ) REFERENCES b ( c ) ON CASCADE ||| CONSTRAINT c FOREIGN KEY ( a ) REFERENCES b ( c ) ON DELETE ||| CONSTRAINT c FOREIGN KEY ( a ) REFERENCES b ( c ) ON DELETE SET ||| CONSTRAINT c FOREIGN KEY ( a ) REFERENCES b ( c ) ON SELECT CASCADE ||| CONSTRAINT c FOREIGN KEY ( a ) REFERENCES b ( c ) ON DELETE d }} )"),
    (ALL, "ALTER TABLE {t} ADD FOREIGN KEY ( a ) REFERENCES b ( c ) {{ ON DELETE CASCADE ||| ON ||| ON CASCADE ||| ON DELETE ||| ON DELETE SET ||| ON SELECT CASCADE ||| ON DELETE d ||| ON DELETE NO ||| ON DELETE ACTION ||| DELETE CASCADE ||| ON DELETE SET 1 ||| ON DELETE CASCADE CASCADE }}"),
    (ALL, "CREATE TABLE {t} ( a {{ VARCHAR ( 5 ) ||| VARCHAR ( ) ||| VARCHAR ( 'a' ) ||| VARCHAR ( 1.5 ) ||| VARCHAR ( -1 ) ||| VARCHAR ( 1 , 2 ) ||| VARCHAR ( b ) ||| VARCHAR ( 5 ||| VARCHAR 5 ||| BIT ||| BIT ( ) ||| BIT ( b ) ||| VARBINARY ||| VARBINARY ( ) ||| NUMERIC ||| NUMERIC ( ) ||| NUMERIC ( 1 , 2 , 3 ) ||| NUMERIC ( , 2 ) ||| NUMERIC ( 1 , ) ||| ENUM ||| ENUM ( ) ||| ENUM ( 1 ) ||| ENUM ( b ) ||| ENUM ( 'a' , ) ||| ENUM ( , 'a' ) ||| SET ( ) ||| SET ||| SET ( 1 ) ||| INT ( 'a' ) ||| INT ( 1.5 ) ||| INT ( ) ||| INT ( b ) ||| CHARACTER VARCHAR ||| DOUBLE DOUBLE ||| INT VARCHAR }} )"),
    (ALL, "CREATE TABLE {t} ( a INT ) {{ ENGINE = b ||| ENGINE = ||| ENGINE ||| = b ||| ENGINE = 1 ||| ENGINE ENGINE = b ||| COMMENT = ||| COMMENT = b ||| COMMENT = 1 ||| CHARSET = ||| DEFAULT = b ||| DEFAULT ENGINE = b ||| WHERE {x} ||| VALUES ( 1 ) ||| ROW_FORMAT = 1 ||| ROW_FORMAT ||| COLLATE = 1 }}"),
    (ALL, "ALTER TABLE {t} {{ ADD COLUMN a INT ||| COLUMN a INT ||| ADD ||| ADD COLUMN ||| ADD COLUMN a ||| ADD COLUMN INT ||| ADD COLUMN a INT , ||| , ADD COLUMN a INT ||| ADD COLUMN a INT ADD COLUMN b INT ||| ADD COLUMN 1 INT ||| ADD ADD COLUMN a INT ||| ADD COLUMN a INT AFTER ||| ADD COLUMN a INT FIRST AFTER b ||| ADD COLUMN a INT AFTER 1 ||| ADD COLUMN a INT WHERE {x} }}"),
    (ALL, "ALTER TABLE {t} {{ DROP COLUMN a ||| DROP ||| DROP COLUMN ||| DROP COLUMN 1 ||| DROP COLUMN a b ||| DROP FOREIGN a ||| DROP PRIMARY ||| DROP COLUMN IF a ||| DROP COLUMN IF NOT EXISTS a ||| DROP COLUMN , a }}"),
    (ALL, "ALTER TABLE {t} {{ ADD PRIMARY KEY ( a ) ||| ADD PRIMARY KEY ||| ADD PRIMARY ( a ) ||| ADD PRIMARY KEY ( ) ||| ADD PRIMARY KEY ( a , ) ||| ADD INDEX ||| ADD INDEX b ||| ADD INDEX b ( ) ||| ADD UNIQUE ||| ADD INDEX b ( 1 ) ||| ADD INDEX b ( c ( ) ) ||| ADD INDEX b ( c ( d ) ) ||| ADD INDEX b ( c ) USING ||| ADD INDEX b ( c ) USING d ||| ADD INDEX b ( c ) COMMENT ||| ADD INDEX b ( c ) COMMENT d }}"),
    (ALL, "ALTER {{ TABLE {t} ||| {t} ||| TABLE ||| TABLE IF {t} ||| TABLE IF NOT EXISTS {t} ||| TABLE EXISTS {t} ||| TABLE 1 ||| VIEW {t} ||| TABLE TABLE ||| DATABASE {t} }} ADD COLUMN a INT"),
    (P, "ALTER TABLE {t} ALTER COLUMN a {{ SET NOT NULL ||| SET ||| NOT NULL ||| SET NOT ||| SET NULL NOT ||| DROP ||| SET DEFAULT ||| DROP NOT ||| SET INT ||| TYPE ||| }}"),
    (ALL, "RENAME TABLE {{ {t} TO {t} ||| {t} ||| {t} TO ||| TO {t} ||| {t} {t} ||| {t} , {t} ||| {t} TO {t} , ||| {t} TO {t} {t} TO {t} ||| {t} TO TO {t} ||| {t} AS {t} ||| {n} TO {t} ||| {t} TO 'b' }}"),
    // Indexes, views, triggers, functions
    (ALL, "CREATE INDEX {i} {{ ON {t} ( {i} ) ||| ON {t} ||| {t} ( {i} ) ||| ON ( {i} ) ||| ON {t} ( ) ||| ON {t} ( {i} , ) ||| ON {t} ( , {i} ) ||| ON {t} {i} ||| ON ON {t} ( {i} ) ||| ( {i} ) ON {t} ||| ON {t} ( {n} ) ||| ON {t} ( {i} ||| TO {t} ( {i} ) ||| ON {t} ( {i} ) ( {i} ) }}"),
    (ALL, "CREATE {{ UNIQUE INDEX ||| INDEX UNIQUE ||| UNIQUE ||| INDEX INDEX ||| UNIQUE COLUMN ||| UNIQUE KEY }} {i} ON {t} ( {i} )"),
    (ALL, "CREATE VIEW {i} {{ AS {q} ||| {q} ||| AS ||| AS {n} ||| AS INSERT INTO a VALUES ( 1 ) ||| AS {i} ||| AS UPDATE a SET b = 1 ||| IS {q} ||| AS AS {q} ||| AS DROP TABLE a ||| ( {q} ) ||| }}"),
    (M, "CREATE TRIGGER {i} {{ BEFORE INSERT ON ||| INSERT ON ||| BEFORE ON ||| BEFORE INSERT ||| BEFORE SELECT ON ||| AFTER AFTER INSERT ON ||| BEFORE INSERT TO ||| ON ||| DURING INSERT ON ||| BEFORE INSERT UPDATE ON }} {i} FOR EACH ROW SELECT {x}"),
    (M, "CREATE TRIGGER {i} BEFORE INSERT ON {i} {{ FOR EACH ROW SELECT {x} ||| SELECT {x} ||| FOR ROW SELECT {x} ||| FOR EACH SELECT {x} ||| EACH ROW SELECT {x} ||| FOR EACH ROW ||| FOR EACH ROW {y} ||| FOR EACH ROW FROM a ||| FOR EACH ROW BEGIN SELECT {x} ; ||| FOR EACH ROW BEGIN SELECT {x} SELECT 1 ; END ||| FOR EACH ROW BEGIN {y} ; END }}"),
    (M, "CREATE FUNCTION {i} {{ ( a INT ) RETURNS INT ||| ( a INT ) ||| RETURNS INT ||| ( a ) RETURNS INT ||| ( a INT , ) RETURNS INT ||| ( , a INT ) RETURNS INT ||| ( INT ) RETURNS INT ||| ( a INT b INT ) RETURNS INT ||| ( a INT ) RETURNS ||| ( a INT ) INT ||| ( a INT ) RETURN INT ||| ( 1 INT ) RETURNS INT ||| ( a INT ) RETURNS 1 ||| ( a INT RETURNS INT ||| ( a INT ) RETURNS b }} RETURN {x}"),
    (M, "CREATE FUNCTION {i} ( ) RETURNS INT {{ RETURN {x} ||| ||| {x} ||| RETURN ||| RETURN {x} , {x} ||| RETURN RETURN {x} ||| BEGIN RETURN {x} ; ||| BEGIN END END ||| RETURN FROM a ||| COMMENT RETURN {x} ||| READS SQL RETURN {x} ||| MODIFIES DATA RETURN {x} ||| NO RETURN {x} ||| LANGUAGE RETURN {x} }}"),
    (P, "CREATE TYPE {i} AS {{ ENUM ( 'a' , 'b' ) ||| ENUM ||| ENUM ( 'a' , ) ||| ENUM ( , 'b' ) ||| ENUM ( 1 ) ||| ENUM ( a ) ||| ( 'a' ) ||| ENUM 'a' ||| INT ||| ENUM ( 'a' }}"),
    // DROP
    (ALL, "DROP TABLE {{ {t} ||| ||| IF {t} ||| IF NOT EXISTS {t} ||| {t} , ||| , {t} ||| {n} ||| 'b' ||| EXISTS {t} ||| IF EXISTS ||| {t} {t2} {t2} ||| {t} WHERE {x} ||| FROM {t} ||| TABLE {t} ||| ( {t} ) }}"),
    (ALL, "DROP VIEW {{ {t} , {t} ||| ||| IF {t} ||| {t} , ||| , {t} ||| {n} ||| 'b' ||| TABLE {t} ||| {t} , , {t} ||| {t} FROM {t} }}"),
    (ALL, "DROP {{ TABLE ||| ||| TEMPORARY ||| TEMPORARY DATABASE ||| TEMPORARY FUNCTION ||| TEMPORARY INDEX ||| TEMPORARY SERVER ||| TEMPORARY PROCEDURE ||| COLUMN ||| TABLE VIEW ||| TEMPORARY TRIGGER }} {i}"),
    (M, "DROP INDEX {i} {{ ON {t} ||| ||| ON ||| {t} ||| ON ON {t} ||| ON {n} ||| FROM {t} ||| ON {t} , {t} ||| TO {t} }}"),
    (P, "DROP INDEX {{ {i} ||| ||| {i} ON {t} ||| {n} ||| IF {i} ||| {i} FROM {t} ||| ON {t} }}"),
    (M, "DROP {{ TRIGGER {i} ||| TRIGGER ||| TRIGGER IF {i} ||| FUNCTION ||| PROCEDURE ||| EVENT ||| DATABASE ||| SERVER ||| TRIGGER 1 ||| FUNCTION 1 ||| DATABASE {i} {i} ||| EVENT 'a' ||| SERVER 1 ||| TRIGGER a b ||| FUNCTION a b ||| EVENT {i} {i} }}"),
    // Other statements
    (ALL, "SET {{ {i} = {x} ||| ||| {i} ||| {i} = ||| = {x} ||| {i} {n} ||| {i} = {x} , ||| , {i} = {x} ||| {n} = {x} ||| {i} = = {x} ||| {i} = {x} {i} = {x} ||| {i} , {i} = {x} ||| SET {i} = {x} ||| 'b' = {x} }}"),
    (ALL, "SIGNAL {{ SQLSTATE {s} ||| ||| SQLSTATE ||| {s} ||| SQLSTATE = {s} ||| SQLSTATE {s} SET ||| SQLSTATE {s} SET {i} = {x} ||| SQLSTATE {s} SET MESSAGE_TEXT ||| SQLSTATE {s} SET MESSAGE_TEXT = ||| SQLSTATE {s} MESSAGE_TEXT = {x} ||| SQLSTATE {s} SET MESSAGE_TEXT = {x} , ||| SQLSTATE {s} SET , MESSAGE_TEXT = {x} ||| SQLSTATE {s} SET SET MESSAGE_TEXT = {x} ||| SQLSTATE {s} SET MESSAGE_TEXT = {x} MYSQL_ERRNO = 1 ||| SQLSTATE {s} SET MESSAGE_TEXT {n} }}"),
    (M, "IF {x} {{ THEN SELECT {x} ; END IF ||| SELECT {x} ; END IF ||| THEN SELECT {x} ; ||| THEN SELECT {x} ; END ||| THEN SELECT {x} ; IF ||| THEN {y} ; END IF ||| THEN SELECT {x} SELECT 1 ; END IF ||| THEN SELECT {x} ; ELSEIF THEN SELECT 1 ; END IF ||| THEN SELECT {x} ; ELSEIF {x} SELECT 1 ; END IF ||| THEN SELECT {x} ; ELSE SELECT 1 ; ELSE SELECT 2 ; END IF ||| THEN SELECT {x} ; ELSE SELECT 1 ; ELSEIF 1 THEN SELECT 2 ; END IF ||| THEN SELECT {x} ; END IF IF ||| THEN THEN SELECT {x} ; END IF }}"),
    (M, "CASE {x} {{ WHEN {x} THEN SELECT {x} ; END ||| THEN SELECT {x} ; END ||| WHEN THEN SELECT {x} ; END ||| WHEN {x} SELECT {x} ; END ||| WHEN {x} THEN SELECT {x} ; ||| END ||| ELSE SELECT {x} ; END ||| WHEN {x} THEN SELECT {x} ; ELSE SELECT {x} ; ELSE SELECT {x} ; END ||| WHEN {x} THEN SELECT {x} ; ELSE SELECT {x} ; WHEN {x} THEN SELECT {x} ; END }}"),
    (ALL, "START {{ TRANSACTION ||| ||| TRANSACTION TRANSACTION ||| SELECT 1 ||| 1 ||| TABLE a }}"),
    (P, "COPY {{ a ( b ) FROM STDIN ||| ( b ) FROM STDIN ||| a ( b ) STDIN ||| a ( b ) FROM ||| a ( b , ) FROM STDIN ||| a ( , b ) FROM STDIN ||| 1 ( b ) FROM STDIN ||| a ( 1 ) FROM STDIN ||| a ( b FROM STDIN ||| a ( b ) INTO STDIN }}"),
];

/// The same for expressions
const EXPRESSIONS: &[(u8, &str)] = &[
    (ALL, "{{ {x} ||| ||| ( ) ||| ( {x} ||| , ||| . ||| = ||| ( , ) ||| ; ||| @ ||| {i} . ||| . {i} ||| {i} . . {i} ||| {i} . {n} ||| {n} . . {n} }}"),
    (ALL, "a {{ = ||| = = ||| = / ||| = < ||| < > = ||| ! ||| = OR ||| AND AND ||| AND OR ||| OR = ||| IS = ||| LIKE LIKE ||| LIKE = ||| NOT = ||| NOT ||| . = ||| = AND ||| XOR XOR ||| DIV DIV ||| IN ||| NOT AND }} {y}"),
    (ALL, "( {x} {{ ||| b ||| , ||| , , b ||| AND ||| OR ||| = ||| + ||| ; }} )"),
    (ALL, "( {x} ) IS {{ NULL ||| ||| {n} ||| 'b' ||| NOT ||| NOT NOT NULL ||| IS NULL ||| ( NULL ) ||| NULL NULL ||| a ||| NOT 1 ||| NOT a ||| NULL NOT }}"),
    (ALL, "( {x} ) {{ IN ( {x} ) ||| IN ||| IN ( ) ||| IN ( {x} , ) ||| IN ( , {x} ) ||| IN {n} ||| IN 'b' ||| IN IN ( {x} ) ||| IN ( {x} {n} ) ||| NOT NOT IN ( {x} ) ||| NOT ( {x} ) ||| IN NOT ( {x} ) ||| NOT ||| NOT IN ||| NOT LIKE ||| NOT = 1 ||| LIKE ||| LIKE NOT LIKE a ||| NOT IS NULL }}"),
    (ALL, "CASE {{ WHEN {x} THEN {x} END ||| END ||| WHEN {x} END ||| WHEN {x} THEN END ||| WHEN THEN {x} END ||| WHEN {x} THEN {x} ||| THEN {x} END ||| WHEN {x} THEN {x} ELSE END ||| WHEN {x} THEN {x} ELSE {x} ELSE {x} END ||| ELSE {x} END ||| WHEN {x} THEN {x} ELSE {x} WHEN {x} THEN {x} END ||| {x} END ||| {x} ELSE {x} END ||| WHEN {x} THEN {x} THEN {x} END ||| WHEN WHEN {x} THEN {x} END ||| WHEN {x} , THEN {x} END ||| {x} , {x} WHEN {x} THEN {x} END }}"),
    (ALL, "CAST ( {{ {x} AS CHAR ||| {x} ||| AS CHAR ||| {x} AS ||| {x} , CHAR ||| {x} AS 1 ||| {x} AS CHAR , ||| {x} AS CHAR , {x} ||| ||| {x} AS AS CHAR ||| {x} AS CHAR ( 1 ||| {x} AS 'a' ||| , AS CHAR }} )"),
    (ALL, "EXTRACT ( {{ DAY FROM {x} ||| FROM {x} ||| DAY {x} ||| DAY FROM ||| DAY , {x} ||| FOO FROM {x} ||| 1 FROM {x} ||| 'DAY' FROM {x} ||| ||| DAY DAY FROM {x} ||| DAY FROM {x} , {x} ||| DAY FROM FROM {x} ||| DAYS FROM {x} ||| a FROM {x} ||| DAY }} )"),
    (ALL, "TIMESTAMPADD ( {{ DAY , {x} , {x} ||| DAY , {x} ||| DAY ||| ||| FOO , {x} , {x} ||| DAY , {x} , {x} , {x} ||| DAY , , {x} ||| , {x} , {x} ||| 1 , {x} , {x} ||| 'DAY' , {x} , {x} ||| DAY {x} , {x} ||| DAY , {x} , ||| DAYS , {x} , {x} ||| DAY DAY , {x} , {x} }} )"),
    (ALL, "TIMESTAMPDIFF ( {{ HOUR , {x} , {x} ||| HOUR , {x} ||| HOUR ||| ||| FOO , {x} , {x} ||| HOUR , {x} , {x} , {x} ||| HOUR , , {x} ||| , {x} , {x} ||| 1 , {x} , {x} ||| 'HOUR' , {x} , {x} ||| HOUR {x} , {x} ||| HOUR , {x} , ||| HOURS , {x} , {x} ||| HOUR HOUR , {x} , {x} }} )"),
    (ALL, "now ( ) + INTERVAL {{ 1 ||| ||| 'abc' ||| '1;2' ||| '' ||| '1..2' ||| ':1' ||| '1:' ||| '1 x' ||| '0x1' ||| '1e2' ||| '1/2' ||| '1_2' ||| 1.5 ||| a ||| 1 , ||| '99999999999999999999999' ||| 'é' ||| '1é2' ||| \"a\" ||| '१' }} DAY"),
    (ALL, "now ( ) + INTERVAL 1 {{ DAY ||| ||| FOO ||| DAYS ||| 1 ||| 'DAY' ||| a ||| , DAY ||| ( DAY ) ||| DAY HOUR ||| DAY_YEAR ||| YEAR_DAY }}"),
    (ALL, "EXISTS {{ ( {q} ) ||| ||| ( ) ||| {i} ||| ( {i} ) ||| {n} ||| ( {n} ) ||| ( {q} ||| SELECT 1 ||| ( , ) }}"),
    (ALL, "( {{ {q} ||| SELECT ||| SELECT , ||| {q} , ||| SELECT 1 FROM ||| SELECT FROM t ||| INSERT INTO t VALUES ( 1 ) ||| UPDATE t SET a = 1 ||| DELETE FROM t ||| {q} ; ||| FROM t ||| SELECT 1 UNION ||| DROP TABLE t }} )"),
    (ALL, "f ( {{ a , b ||| a b ||| a , ||| , b ||| a , , b ||| , ||| a ; b ||| a AS b ||| DISTINCT ||| a FROM b ||| = ||| a = ||| = b ||| a . ||| AND }} )"),
    (ALL, "{{ f ||| SELECT ||| FROM ||| WHERE ||| TABLE ||| GROUP ||| ORDER ||| JOIN ||| UPDATE ||| INTO ||| PRIMARY ||| AND ||| THEN ||| FOREIGN ||| BY ||| ON }} ( a , b )"),
    (ALL, "{{ a ||| FROM ||| WHERE ||| TABLE ||| GROUP ||| ORDER ||| JOIN ||| UPDATE ||| INTO ||| PRIMARY ||| AND ||| THEN ||| FOREIGN ||| BY ||| ON ||| WHEN ||| END_ . ||| CREATE ||| DROP ||| ALTER ||| SELECT }} . b"),
    (ALL, "{{ - ||| / ||| % ||| = ||| AND ||| OR ||| < ||| LIKE ||| IN ||| IS ||| << ||| | ||| & ||| , ||| . ||| ) ||| ; ||| AS ||| XOR ||| DIV ||| || ||| && ||| <= }} {y}"),
    (ALL, "( a ) {{ + ||| ||| . ||| ! ||| ~ ||| @ ||| : ||| ( ||| : : ||| => ||| ? ||| \\ ||| [ ||| $ ||| # x }} ( b )"),
];

const AROUND: &[(u8, &str, &str)] = &[
    (ALL, "SELECT", ""),
    (ALL, "SELECT a FROM t WHERE", ""),
    (ALL, "UPDATE t SET a =", ""),
    (ALL, "INSERT INTO t VALUES (", ")"),
    (ALL, "SELECT f (", ")"),
    (ALL, "SELECT 1 + (", ")"),
    (ALL, "SELECT CASE WHEN", "THEN 1 END"),
    (ALL, "SELECT CASE WHEN a THEN", "END"),
    (ALL, "DELETE FROM t WHERE a = 1 AND", ""),
    (ALL, "SELECT a FROM t JOIN u ON", "WHERE b = 2"),
    (ALL, "SELECT a FROM t GROUP BY a HAVING", ""),
    (ALL, "SELECT a FROM t ORDER BY", "DESC LIMIT 3"),
    (ALL, "SET a =", ""),
    (ALL, "SELECT b IN (", ")"),
    (ALL, "SELECT b , (", ") , c FROM t"),
    (ALL, "CREATE VIEW v AS SELECT", "FROM t"),
    (ALL, "CREATE TABLE t ( a INT DEFAULT (", ") )"),
    (M, "IF", "THEN SELECT 1 ; END IF"),
    (M, "CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW SET c =", ""),
    (M, "CREATE FUNCTION f ( ) RETURNS INT RETURN", ""),
    (P, "INSERT INTO t VALUES ( 1 ) RETURNING", ""),
    (P, "WITH c AS ( SELECT", ") SELECT 1"),
    (ALL, "SELECT ( SELECT", "FROM t )"),
    (ALL, "SELECT a UNION SELECT", ""),
];

/// Statements around a statement
const BODIES: &[(u8, &str, &str)] = &[
    (ALL, "", ""),
    (ALL, "", ""),
    (ALL, "", ""),
    (M, "CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW BEGIN", "; END"),
    (M, "CREATE TRIGGER a BEFORE INSERT ON b FOR EACH ROW BEGIN SELECT 1 ;", "; SELECT 2 ; END"),
    (M, "IF a THEN", "; END IF"),
    (M, "IF a THEN SELECT 1 ; ELSE", "; END IF"),
    (M, "CASE a WHEN 1 THEN", "; ELSE SELECT 1 ; END"),
];

fn write(g: &mut G, t: &str) {
    for w in t.split(' ') {
        match w {
            "" => (),
            "{e}" => {
                g.expr(2);
            }
            "{x}" => {
                g.expr(1);
            }
            // An operand that continues nothing before it
            "{x2}" => {
                g.push(K::Num, "1");
            }
            "{t2}" => {
                g.push(K::Id, "b");
            }
            "{y}" => {
                g.push(K::Id, "b");
            }
            "{t}" => {
                g.qname();
            }
            "{i}" => {
                g.id();
            }
            "{n}" => {
                let n = g.r.n(100).to_string();
                g.push(K::Num, n);
            }
            "{s}" => {
                g.string();
            }
            "{q}" => {
                g.plain_query(1);
            }
            w => {
                let c = w.as_bytes()[0];
                let k = match c {
                    b'A'..=b'Z' => K::Kw,
                    b'a'..=b'z' => K::Id,
                    b'\'' | b'"' => K::Str,
                    b'0'..=b'9' => K::Num,
                    _ => K::Op,
                };
                g.push(k, w);
            }
        }
    }
}

struct Twin {
    mask: u8,
    before: String,
    alts: Vec<String>,
    after: String,
}

fn twin(t: &(u8, &str)) -> Twin {
    let (b, r) = t.1.split_once("{{").unwrap();
    let (m, a) = r.split_once("}}").unwrap();
    Twin { mask: t.0, before: b.into(), alts: m.split("|||").map(|s| s.trim().to_string()).collect(), after: a.into() }
}

fn list() -> &'static Vec<(Twin, bool)> {
    static L: std::sync::OnceLock<Vec<(Twin, bool)>> = std::sync::OnceLock::new();
    L.get_or_init(|| STATEMENTS.iter().map(|t| (twin(t), false)).chain(EXPRESSIONS.iter().map(|t| (twin(t), true))).collect())
}

fn count() -> u64 {
    list().iter().map(|t| t.0.alts.len() as u64 - 1).sum()
}

/// A right text and a wrong one, in the same place
fn twins(cx: &mut Cx, r: &mut Rng, i: u64) -> R {
    let mut k = (i % count()) as usize;
    let (t, expr) = list()
        .iter()
        .find(|t| {
            let n = t.0.alts.len() - 1;
            if k < n {
                true
            } else {
                k -= n;
                false
            }
        })
        .unwrap();
    let mut mask = t.mask;
    let mut pick = |v: &[(u8, &'static str, &'static str)], r: &mut Rng| loop {
        let a = v[r.n(v.len())];
        if a.0 & mask != 0 {
            mask &= a.0;
            return (a.1, a.2);
        }
    };
    let around = if *expr { pick(AROUND, r) } else { ("", "") };
    let whole = |t: &Twin| t.alts.iter().any(|a| a.split(' ').any(|w| w == "END" || w == ";"));
    let body = if (!*expr && whole(t)) || around.0.starts_with("IF") || around.0.starts_with("CREATE TR") { ("", "") } else { pick(BODIES, r) };
    let mut cfg = Cfg::new(r);
    while cfg.dialect & mask == 0 {
        cfg.dialect = DIALECTS[r.n(3)];
    }
    cfg.limit = 30;
    cfg.scale = 0;
    cfg.quoted = 0;
    let seed = r.u64();
    let l = layout(r);
    let o = loop {
        let mut o = O::random(r);
        o.dialect = cfg.dialect;
        o.args = cfg.args;
        o.list_hack = cfg.list_hack;
        break o;
    };
    let make = |alt: &str, r: &mut Rng| {
        let mut g = G::new(Rng::new(seed), cfg.clone());
        for p in [body.0, around.0, &t.before] {
            write(&mut g, p);
        }
        write(&mut g, alt);
        for p in [&t.after, around.1, body.1] {
            write(&mut g, p);
        }
        let mut s = render(&g.toks, l, Case::Random, r).s;
        if o.script {
            s.push(';');
        }
        (s, g)
    };

    let (good, g) = make(&t.alts[0], r);
    if g.mask & cfg.dialect == 0 {
        return Ok(());
    }
    cx.eval(&good, false);
    if !obs::accepts(&good, &o) {
        return bad(&good, &o, format!("valid text is not accepted: {}", obs::run(&good, &o).messages()));
    }
    let alt = &t.alts[k + 1];
    if alt.is_empty() && around.1 == ")" && t.before.is_empty() {
        // An empty list
        return Ok(());
    }
    let (text, _) = make(alt, r);
    cx.eval(&text, true);
    cx.f(if *expr { "expression" } else { t.alts[0].split(' ').next().unwrap_or("") });
    if obs::accepts(&text, &o) {
        return bad(&text, &o, format!("{alt:?} cannot stand in place of {:?}, and no Error is reported", t.alts[0]));
    }
    Ok(())
}

fn damaged(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let mut cfg = Cfg::new(r);
    cfg.depth = cfg.depth.min(3);
    let mut m = any(r, cfg);
    let mut o = m.o(r);
    o.script = r.p(30);
    if m.g.toks.iter().any(|t| t.ex || t.t == "$$" || t.k == K::Raw) {
        return Ok(());
    }
    let Some(what) = damage(&mut m.g.toks, r) else { return Ok(()) };
    let mut t = render(&m.g.toks, layout(r), Case::Random, r).s;
    if o.script && !what.starts_with("cut") {
        t.push_str("\n;");
    }
    cx.eval(&t, true);
    cx.f(&what);
    if obs::accepts(&t, &o) {
        return bad(&t, &o, format!("{what}: the statement is not well formed, and no Error is reported"));
    }
    Ok(())
}

/// Something after a statement that is complete
fn trailing(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let mut cfg = Cfg::new(r);
    cfg.depth = cfg.depth.min(3);
    cfg.limit = cfg.limit.min(60);
    let m = any(r, cfg.clone());
    let mut o = m.o(r);
    o.script = r.p(30);
    o.warn_id = r.p(20);
    let mut k = m.g.toks.clone();
    if k.iter().any(|t| t.k == K::Raw) || m.g.feats.contains_key("create_function.pg_body") {
        return Ok(());
    }
    let n = k.len();
    let what = match r.n(4) {
        // What no statement goes on with
        0 | 1 => {
            let x = *r.pick(&["$$", ")", "]", "}", "\\", "$$", ";"]);
            if x == ";" && o.script {
                return Ok(());
            }
            k.push(op(x));
            if r.p(60) {
                let n = r.n(6);
                k.extend(crate::mutate::soup(r, n));
            }
            format!("{x} after the statement")
        }
        2 => {
            let x = *r.pick(&[",", ".", "=", "<", ">=", "||", "&&", "/", "|", "("]);
            k.push(op(x));
            format!("{x} at the end of the statement")
        }
        // Another statement without a delimiter
        _ => {
            cfg.limit = 30;
            let b = any(r, cfg);
            if b.g.toks.iter().any(|t| t.k == K::Raw) || b.g.toks[0].k != K::Kw || !crate::words::is_reserved(&b.g.toks[0].t) || b.g.feats.contains_key("create_function.pg_body") {
                return Ok(());
            }
            k.extend(b.g.toks);
            "two statements".into()
        }
    };
    let mut t = render(&k, layout(r), Case::Random, r);
    if o.script {
        t.s.push_str("\n;");
        t.at.push((t.s.len(), t.s.len()));
    }
    cx.eval(&t.s, true);
    cx.f(&what);
    if obs::accepts(&t.s, &o) {
        return bad(&t.s, &o, format!("{what}, which ends at {}, and no Error is reported", t.at[n - 1].1));
    }
    Ok(())
}

/// Several parts of a valid statement removed so that brackets still match
fn shortened(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let mut cfg = Cfg::new(r);
    cfg.depth = cfg.depth.min(3);
    let m = any(r, cfg);
    let mut o = m.o(r);
    o.script = r.p(30);
    let v = &m.g.toks;
    if v.iter().any(|t| t.ex || t.t == "$$" || t.k == K::Raw) {
        return Ok(());
    }
    // Words that nothing can be without
    let need = ["THEN", "BY", "REFERENCES", "TO", "SET", "END", "WHEN", "OVER", "EACH", "EXTRACT", "RETURNS", "TYPE", "TRIGGER", "VIEW", "FUNCTION", "DUPLICATE", "CONFLICT", "TRANSACTION", "SQLSTATE", "ROW"];
    let p: Vec<usize> = v.iter().enumerate().filter(|(i, t)| t.k == K::Kw && need.iter().any(|n| t.t.eq_ignore_ascii_case(n)) && v.len() > 1 && *i < v.len()).map(|p| p.0).collect();
    if p.is_empty() {
        return Ok(());
    }
    let i = p[r.n(p.len())];
    let mut w = v.clone();
    let gone = w.remove(i).t.to_uppercase();
    let mut t = render(&w, layout(r), Case::Random, r).s;
    if o.script {
        t.push_str("\n;");
    }
    cx.eval(&t, true);
    cx.f(&format!("without.{gone}"));
    if obs::accepts(&t, &o) {
        return bad(&t, &o, format!("{gone} is missing, and no Error is reported"));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C33",
        rule: "a right text and a wrong one that differ in one listed place, with generated expressions, names and queries around it; valid statements with a token doubled, an operator or comma where no operand is, or cut where something must follow; and valid statements without a word nothing can be without",
        assumptions: &["what may not stand where is listed by hand in props/negative.rs; what the parser takes on purpose (repeated SELECT options, an optional last semicolon in a body) is not on the list"],
        streams: vec![stream("twins", 60 * count(), 2_000 * count(), twins), stream("damaged", 60_000, 6_000_000, damaged), stream("trailing", 60_000, 3_000_000, trailing), stream("shortened", 40_000, 3_000_000, shortened)],
    }]
}
