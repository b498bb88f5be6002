//! What a token of a valid statement cannot be followed by, found from the generator's valid texts.

/// A token, and the tokens it cannot stand after
pub const PAIRS: &[(&str, &str)] = &[
    ("$$", "! != $$ & && ( ) * + , - . / ; < << <= <=> <> <arg> <num> <str> = > >= >> @ @@GLOBAL @@SESSION ADD AFTER ALGORITHM ALL ALTER AND BEFORE BEGIN BINARY BY CASE CAST COLLATE COLUMN COMMENT COMMIT CONSTRAINT CREATE CURRENT_DATE CURRENT_TIME CURRENT_TIMESTAMP DEFAULT DEFINER DELETE DISTINCT DROP EACH ELSE ELSEIF ENUM EVENT EXISTS EXTRACT FALSE FOR FOREIGN FROM FUNCTION GIST IF IGNORE IN INDEX INNER INTERVAL INTO IS JOIN KEY LIKE LOCALTIME LOCALTIMESTAMP LOW_PRIORITY NATURAL NOT NULL ON OR ORDER OUT OUTER PROCEDURE REFERENCES RENAME RETURN RETURNS ROW SECURITY SELECT SERVER SET SIGNAL SQL SQLSTATE START TABLE THEN TIME_ZONE TO TRANSACTION TRIGGER TRUE TRUNCATE TYPE UNION UNIQUE UPDATE USER USING UTC_DATE UTC_TIME UTC_TIMESTAMP VALUE VALUES VIEW WHEN WHERE XOR _LIST_ | ||"),
    (")", "! != $$ & && + , - . / ; < << <= <=> <> = > >= >> @ @@GLOBAL @@SESSION ADD AFTER ALGORITHM ALL ALTER AND AS BEFORE BEGIN BY CASE CAST COLLATE COLUMN COMMIT CONSTRAINT CREATE DEFAULT DEFINER DELETE DISTINCT DO DROP EACH ELSE ELSEIF ENUM EVENT EXISTS EXTRACT FOR FOREIGN FROM FUNCTION GIST IF IGNORE IN INDEX INNER INSERT INTERVAL INTO IS JOIN LEFT LIKE LOW_PRIORITY NATURAL NOT ON OR ORDER OUTER PROCEDURE REFERENCES RENAME RETURN RETURNS ROW SECURITY SELECT SERVER SET SIGNAL SQL SQLSTATE START STRAIGHT_JOIN TABLE THEN TIMESTAMPDIFF TO TRANSACTION TRIGGER TRUNCATE TYPE UNION USER USING VALUE VIEW WHEN WHERE XOR | ||"),
    (",", "! != $$ & ( + , - . / ; < << <= <=> <> = > >= >> @ @@GLOBAL @@SESSION ADD AFTER ALGORITHM ALL ALTER AND AS BEFORE BEGIN BY CASE CAST COLLATE COLUMN COMMIT CONSTRAINT CREATE DATABASE DEFINER DELETE DISTINCT DO DROP EACH ELSE ELSEIF ENUM EVENT EXISTS EXTRACT FOR FOREIGN FROM FUNCTION IF IGNORE IN INDEX INNER INSERT INTERVAL INTO IS JOIN LEFT LIKE LOW_PRIORITY NATURAL NOT ON OR ORDER OUTER PROCEDURE REFERENCES RENAME RETURN RETURNS ROW SECURITY SELECT SERVER SET SIGNAL SQL SQLSTATE START TABLE THEN TO TRANSACTION TRIGGER TRUNCATE TYPE UNION USER USING VALUE VALUES VIEW WHEN WHERE XOR | ||"),
    (".", "! != $$ & && ( ) + , - . / ; < << <= <=> <> <arg> <num> <str> = > >= >> @ ADD AFTER ALGORITHM ALL ALTER AND AS BEFORE BEGIN BINARY BY CASE CAST COLLATE COLUMN COMMIT CONSTRAINT CREATE CURRENT_DATE CURRENT_TIME CURRENT_TIMESTAMP DEFAULT DEFINER DELETE DISTINCT DO DROP EACH ELSE ELSEIF END ENUM EVENT EXISTS EXTRACT FALSE FOR FOREIGN FROM FUNCTION GIST IGNORE IN INDEX INNER INSERT INTERVAL INTO IS JOIN KEY LIKE LOCALTIME LOCALTIMESTAMP LOW_PRIORITY NATURAL NOT NULL ON OR ORDER OUTER PROCEDURE REFERENCES RENAME RETURN RETURNS ROW SECURITY SELECT SERVER SET SIGNAL SQL SQLSTATE START STRAIGHT_JOIN TABLE THEN TIME_ZONE TO TRANSACTION TRIGGER TRUE TYPE UNION UNIQUE UNKNOWN UPDATE USER USING UTC_DATE UTC_TIME UTC_TIMESTAMP VALUE VALUES VIEW WHEN WHERE XOR _LIST_ | ||"),
    (";", "! != $$ & && ( + , - . / < << <= <=> <> = > >= >> @ @@GLOBAL @@SESSION ADD AFTER ALGORITHM ALL ALTER AND AS BEFORE BY CASE CAST COLLATE COLUMN CONSTRAINT CREATE DEFINER DELETE DISTINCT DO DROP EACH ELSEIF ENUM EVENT EXISTS EXTRACT FOR FOREIGN FROM FUNCTION GIST IGNORE IN INDEX INNER INSERT INTERVAL INTO IS JOIN LEFT LIKE LOW_PRIORITY NATURAL NOT ON OR ORDER OUT OUTER PROCEDURE REFERENCES RENAME REPLACE RETURN RETURNS RIGHT ROW SCHEMA SECURITY SELECT SERVER SET SIGNAL SQL SQLSTATE START STRAIGHT_JOIN TABLE TO TRIGGER TRUNCATE TYPE UNION USER USING VALUE VIEW WHEN WHERE | ||"),
    ("@", "! != $$ & && ( ) * + , - . / ; < << <= <=> <> <arg> <num> <str> = > >= >> @ @@GLOBAL @@SESSION ADD AFTER ALGORITHM ALL ALTER AND AS BEFORE BEGIN BINARY BY CASE CAST COLLATE COLUMN COMMENT COMMIT CONSTRAINT COUNT CREATE CURRENT_DATE CURRENT_TIME CURRENT_TIMESTAMP DEFAULT DEFINER DELETE DISTINCT DO DROP EACH ELSE ELSEIF END ENUM EVENT EXISTS EXTRACT FALSE FOR FOREIGN FROM FUNCTION GIST IGNORE IN INDEX INTERVAL INTO IS JOIN KEY LEFT LIKE LOCALTIME LOCALTIMESTAMP LOW_PRIORITY NATURAL NOT NULL ON OR ORDER OUTER PROCEDURE REFERENCES RENAME REPLACE RETURN RETURNS ROW SECURITY SELECT SERVER SET SIGNAL SQL SQLSTATE START TABLE THEN TIME_ZONE TO TRANSACTION TRIGGER TRUE TRUNCATE TYPE UNION UNIQUE UNKNOWN UPDATE USER USING UTC_DATE UTC_TIME UTC_TIMESTAMP VALUE VALUES VIEW WHEN WHERE XOR _LIST_ | ||"),
];
