"""The opcodes of Bitcoin Cash (November 2020): byte, stack effect.

Each line: name byte [effect], effect = inputs "->" outputs, deepest first.
Types: i number, b truth value, y bytes (yN: of N bytes), letters A.. anything; an output letter that names an input is that very item."""
T = """
0 00 -> i | PUSHDATA1 4c | PUSHDATA2 4d | PUSHDATA4 4e | 1NEGATE 4f -> i | RESERVED 50 !
1 51 -> i | 2 52 -> i | 3 53 -> i | 4 54 -> i | 5 55 -> i | 6 56 -> i | 7 57 -> i | 8 58 -> i | 9 59 -> i | 10 5a -> i | 11 5b -> i | 12 5c -> i
13 5d -> i | 14 5e -> i | 15 5f -> i | 16 60 -> i
NOP 61 -> | VER 62 ! | IF 63 A -> | NOTIF 64 A -> | VERIF 65 ! | VERNOTIF 66 ! | ELSE 67 -> | ENDIF 68 -> | VERIFY 69 b -> | RETURN 6a ->
TOALTSTACK 6b A -> | FROMALTSTACK 6c -> N | 2DROP 6d A B -> | 2DUP 6e A B -> A B A B | 3DUP 6f A B C -> A B C A B C
2OVER 70 A B C D -> A B C D A B | 2ROT 71 A B C D E F -> C D E F A B | 2SWAP 72 A B C D -> C D A B | IFDUP 73 ?
DEPTH 74 -> i | DROP 75 A -> | DUP 76 A -> A A | NIP 77 A B -> B | OVER 78 A B -> A B A | PICK 79 i -> N | ROLL 7a i -> N
ROT 7b A B C -> B C A | SWAP 7c A B -> B A | TUCK 7d A B -> B A B
CAT 7e y y -> y | SPLIT 7f y i -> y y | NUM2BIN 80 i i -> y | BIN2NUM 81 y -> i | SIZE 82 Y -> Y i
INVERT 83 ! | AND 84 y y -> y | OR 85 y y -> y | XOR 86 y y -> y | EQUAL 87 = = -> b | EQUALVERIFY 88 = = -> | RESERVED1 89 ! | RESERVED2 8a !
1ADD 8b i -> i | 1SUB 8c i -> i | 2MUL 8d ! | 2DIV 8e ! | NEGATE 8f i -> i | ABS 90 i -> i | NOT 91 b -> b | 0NOTEQUAL 92 i -> b
ADD 93 i i -> i | SUB 94 i i -> i | MUL 95 ! | DIV 96 i i -> i | MOD 97 i i -> i | LSHIFT 98 ! | RSHIFT 99 !
BOOLAND 9a b b -> b | BOOLOR 9b b b -> b | NUMEQUAL 9c i i -> b | NUMEQUALVERIFY 9d i i -> | NUMNOTEQUAL 9e i i -> b
LESSTHAN 9f i i -> b | GREATERTHAN a0 i i -> b | LESSTHANOREQUAL a1 i i -> b | GREATERTHANOREQUAL a2 i i -> b | MIN a3 i i -> i | MAX a4 i i -> i
WITHIN a5 i i i -> b | RIPEMD160 a6 y -> y20 | SHA1 a7 y -> y20 | SHA256 a8 y -> y32 | HASH160 a9 y -> y20 | HASH256 aa y -> y32
CODESEPARATOR ab -> | CHECKSIG ac y y -> b | CHECKSIGVERIFY ad y y -> | CHECKMULTISIG ae ? | CHECKMULTISIGVERIFY af ?
NOP1 b0 -> | CHECKLOCKTIMEVERIFY b1 I -> I | CHECKSEQUENCEVERIFY b2 I -> I | NOP4 b3 -> | NOP5 b4 -> | NOP6 b5 -> | NOP7 b6 -> | NOP8 b7 ->
NOP9 b8 -> | NOP10 b9 -> | CHECKDATASIG ba y y y -> b | CHECKDATASIGVERIFY bb y y y -> | REVERSEBYTES bc y -> y
"""
OPS = {}      # name -> (byte, kind, inputs, outputs); kind: "op", "disabled", "varies", "push"
for _e in T.replace("\n", "|").split("|"):
    _w = _e.split()
    if not _w:
        continue
    _r = _w[2:]
    _k = "push" if not _r else "disabled" if _r == ["!"] else "varies" if _r == ["?"] else "op"
    _i = _r.index("->") if _k == "op" else 0
    OPS["OP_" + _w[0]] = (int(_w[1], 16), _k, tuple(_r[:_i]), tuple(_r[_i + 1:]) if _k == "op" else ())
UNDEFINED = "FIRST_UNDEFINED_OP_VALUE"
assert sorted(b for b, *_ in OPS.values()) == [0] + list(range(0x4c, 0xbd))
