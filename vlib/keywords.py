KEYWORDS = set("""
ABS ABSOLUTE ACTION ADD ADMIN AFTER ALIAS ALL ALTER ALWAYS AND ANY APPLY ARE ARRAY AS ASC ASSERTION 
ASYMMETRIC AT AUTHORIZATION AVG BEFORE BEGIN BETWEEN BIGINT BINARY BIT_AND BIT_OR BLOB BOOLEAN BOOL_AND 
BOOL_OR BOTH BY CALL CARDINALITY CASCADE CASCADED CASE CAST CEIL CHAR CHARACTER CHARACTER_LENGTH CHAR_LENGTH 
CHECK CLASS CLOB CLOSE COALESCE COLLATE COLUMN COMMIT CONNECT CONSTRAINT CONSTRAINTS CONTINUE CONVERT 
CORRESPONDING COUNT CREATE CROSS CUBE CURRENT CURRENT_DATE CURRENT_PATH CURRENT_ROLE CURRENT_TIME 
CURRENT_TIMESTAMP CURRENT_USER CURSOR CYCLE DATE DAY DEALLOCATE DEC DECIMAL DECLARE DEFAULT DELETE DEREF DESC 
DESCRIBE DETERMINISTIC DISCONNECT DISTINCT DOUBLE DROP DYNAMIC EACH ELSE END ESCAPE EVERY EXCEPT EXEC EXECUTE 
EXISTS EXTERNAL EXTRACT FALSE FETCH FIRST FLOAT FLOOR FOR FOREIGN FROM FULL FUNCTION GENERATED GET GLOBAL 
GRANT GROUP GROUPING HAVING HOUR IDENTITY IF IGNORE IN INCLUDE INCREMENT INDEX INDICATOR INNER INOUT INSERT 
INT INTEGER INTERSECT INTERVAL INTO IS JOIN KEY LANGUAGE LARGE LAST LATERAL LEADING LEFT LENGTH LIKE LIMIT 
LOCAL LOCALTIME LOCALTIMESTAMP LOWER MATCH MAX MAXVALUE MIN MINUTE MINVALUE MOD MODIFIES MODULE MONTH 
NATIONAL NATURAL NCHAR NCLOB NEW NEXT NO NONE NOT NULL NULLIF NULLS NUMERIC OBJECT OCTET_LENGTH OF OLD ON 
ONLY OPEN OR ORDER ORDINALITY OUT OUTER OVERLAPS OVERLAY OWNED PARAMETER PLACING POSITION PRECISION PREPARE 
PRIMARY PRIVILEGES PROCEDURE PUBLIC REAL RECURSIVE REF REFERENCES REFERENCING RENAME REPLACE RESTART RESTRICT 
RESULT RETURN RETURNS REVOKE RIGHT ROLE ROLLBACK ROLLUP ROW ROWS SAVEPOINT SCHEMA SCOPE SEARCH SECOND SELECT 
SEQUENCE SESSION_USER SET SIMILAR SMALLINT SOME SPECIFIC SQL SQLEXCEPTION SQLSTATE SQLWARNING START STATIC 
SUBLIST SUBSTRING SUM SYMMETRIC SYSTEM_USER TABLE TEMPORARY THEN TIME TIMESTAMP TIMEZONE_HOUR TIMEZONE_MINUTE 
TINYINT TO TRAILING TRANSLATE TRANSLATION TREAT TRIGGER TRIM TRUE TRUNCATE UNION UNIQUE UNKNOWN UNNEST UPDATE 
UPPER USER USING VALUE VALUES VARBINARY VARCHAR VARYING VIEW WHEN WHENEVER WHERE WITH WITHOUT YEAR ZONE _ 
""".split())
CONTEXTUAL = "ASC CONTINUE DESC KEY IGNORE SCHEMA SEQUENCE RESTART RESTRICT RENAME FIRST LAST ORDINALITY VALUE".split()
