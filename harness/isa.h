// isa.h - independent description of the NMOS 6502 instruction set, by opcode.
#ifndef ISA_H
#define ISA_H
#include <cstdint>
#include <map>
#include <string>
#include <vector>

enum Mode { IMP, ACC, IMM, ZP, ZPX, ZPY, ABS, ABX, ABY, IND, IZX, IZY, REL, NMODES, MODE_NONE = -1 };
inline const char *mode_name(int m)
{
	static const char *n[] = {"imp", "acc", "imm", "zp", "zpx", "zpy", "abs", "abx", "aby", "ind", "izx", "izy", "rel"};
	return m < 0 ? "none" : n[m];
}
inline int mode_len(int m)
{
	switch (m) {
	case IMP: case ACC: return 1;
	case ABS: case ABX: case ABY: case IND: return 3;
	default: return 2;
	}
}

struct Isa {
	std::vector<std::string> names;                  // 56 mnemonics
	std::map<std::string, int> index;
	int code[56][NMODES];                            // opcode or -1
	struct { int mn = -1, mode = -1; } by_op[256];   // decoding
	struct Combo { int mn, mode, op; };
	std::vector<Combo> combos;

	bool has(int mn, int mode) const { return mode >= 0 && code[mn][mode] >= 0; }
	bool is_branch(int mn) const { return code[mn][REL] >= 0; }
	bool is_jump(int mn) const { return names[mn] == "JMP" || names[mn] == "JSR"; }
	int find(const std::string &s) const { auto i = index.find(s); return i == index.end() ? -1 : i->second; }

	Isa()
	{
		// the opcode matrix, row by row (high nibble), NMOS documented opcodes
		static const char *matrix[16] = {
		"00 BRK imp|01 ORA izx|05 ORA zp|06 ASL zp|08 PHP imp|09 ORA imm|0A ASL acc|0D ORA abs|0E ASL abs",
		"10 BPL rel|11 ORA izy|15 ORA zpx|16 ASL zpx|18 CLC imp|19 ORA aby|1D ORA abx|1E ASL abx",
		"20 JSR abs|21 AND izx|24 BIT zp|25 AND zp|26 ROL zp|28 PLP imp|29 AND imm|2A ROL acc|2C BIT abs|2D AND abs|2E ROL abs",
		"30 BMI rel|31 AND izy|35 AND zpx|36 ROL zpx|38 SEC imp|39 AND aby|3D AND abx|3E ROL abx",
		"40 RTI imp|41 EOR izx|45 EOR zp|46 LSR zp|48 PHA imp|49 EOR imm|4A LSR acc|4C JMP abs|4D EOR abs|4E LSR abs",
		"50 BVC rel|51 EOR izy|55 EOR zpx|56 LSR zpx|58 CLI imp|59 EOR aby|5D EOR abx|5E LSR abx",
		"60 RTS imp|61 ADC izx|65 ADC zp|66 ROR zp|68 PLA imp|69 ADC imm|6A ROR acc|6C JMP ind|6D ADC abs|6E ROR abs",
		"70 BVS rel|71 ADC izy|75 ADC zpx|76 ROR zpx|78 SEI imp|79 ADC aby|7D ADC abx|7E ROR abx",
		"81 STA izx|84 STY zp|85 STA zp|86 STX zp|88 DEY imp|8A TXA imp|8C STY abs|8D STA abs|8E STX abs",
		"90 BCC rel|91 STA izy|94 STY zpx|95 STA zpx|96 STX zpy|98 TYA imp|99 STA aby|9A TXS imp|9D STA abx",
		"A0 LDY imm|A1 LDA izx|A2 LDX imm|A4 LDY zp|A5 LDA zp|A6 LDX zp|A8 TAY imp|A9 LDA imm|AA TAX imp|AC LDY abs|AD LDA abs|AE LDX abs",
		"B0 BCS rel|B1 LDA izy|B4 LDY zpx|B5 LDA zpx|B6 LDX zpy|B8 CLV imp|B9 LDA aby|BA TSX imp|BC LDY abx|BD LDA abx|BE LDX aby",
		"C0 CPY imm|C1 CMP izx|C4 CPY zp|C5 CMP zp|C6 DEC zp|C8 INY imp|C9 CMP imm|CA DEX imp|CC CPY abs|CD CMP abs|CE DEC abs",
		"D0 BNE rel|D1 CMP izy|D5 CMP zpx|D6 DEC zpx|D8 CLD imp|D9 CMP aby|DD CMP abx|DE DEC abx",
		"E0 CPX imm|E1 SBC izx|E4 CPX zp|E5 SBC zp|E6 INC zp|E8 INX imp|E9 SBC imm|EA NOP imp|EC CPX abs|ED SBC abs|EE INC abs",
		"F0 BEQ rel|F1 SBC izy|F5 SBC zpx|F6 INC zpx|F8 SED imp|F9 SBC aby|FD SBC abx|FE INC abx"};
		for (auto &r : code)
			for (int &c : r)
				c = -1;
		for (auto *row : matrix) {
			std::string s = std::string(row) + "|";
			size_t p = 0, q;
			while ((q = s.find('|', p)) != std::string::npos) {
				std::string e = s.substr(p, q - p);
				p = q + 1;
				int op = (int)strtol(e.substr(0, 2).c_str(), nullptr, 16);
				std::string mn = e.substr(3, 3), md = e.substr(7);
				int mode = 0;
				while (md != mode_name(mode))
					mode++;
				if (!index.count(mn)) {
					index[mn] = (int)names.size();
					names.push_back(mn);
				}
				code[index[mn]][mode] = op;
				by_op[op].mn = index[mn];
				by_op[op].mode = mode;
				combos.push_back({index[mn], mode, op});
			}
		}
	}
};
inline const Isa &isa() { static Isa i; return i; }

// operand shapes of the grammar
enum Shape { S_NONE, S_A, S_O, S_OX, S_OY, S_IMM, S_IND, S_INDX, S_INDY, NSHAPES };
inline const char *shape_name(int s)
{
	static const char *n[] = {"none", "A", "O", "O,X", "O,Y", "#O", "(O)", "(O,X)", "(O),Y"};
	return n[s];
}

// The rule that selects the addressing mode.  sym: the operand is a symbol.
// MODE_NONE = illegal.
inline int resolve_mode(int mn, int shape, long value, bool sym)
{
	const Isa &I = isa();
	auto ok = [&](int m) { return I.has(mn, m) ? m : (int)MODE_NONE; };
	if (shape == S_NONE)
		return I.has(mn, ACC) ? (int)ACC : ok(IMP);
	if (shape == S_A)
		return ok(ACC);
	if (I.is_branch(mn))
		return shape == S_O && (sym || value <= 0xFF) ? (int)REL : (int)MODE_NONE;
	if (I.is_jump(mn))
		return shape == S_O ? ok(ABS) : shape == S_IND ? ok(IND) : (int)MODE_NONE;
	bool small = value <= 0xFF;
	switch (shape) {
	case S_O: return ok(small ? ZP : ABS);
	case S_OX: return ok(small ? ZPX : ABX);
	case S_OY: return ok(small ? ZPY : ABY);
	case S_IMM: return small ? ok(IMM) : (int)MODE_NONE;
	case S_INDX: return small ? ok(IZX) : (int)MODE_NONE;
	case S_INDY: return small ? ok(IZY) : (int)MODE_NONE;
	default: return MODE_NONE; // (O) belongs to JMP only
	}
}
inline int mode_shape(int m)
{
	switch (m) {
	case IMP: return S_NONE;
	case ACC: return S_A;
	case IMM: return S_IMM;
	case ZP: case ABS: case REL: return S_O;
	case ZPX: case ABX: return S_OX;
	case ZPY: case ABY: return S_OY;
	case IND: return S_IND;
	case IZX: return S_INDX;
	case IZY: return S_INDY;
	}
	return S_NONE;
}
#endif
