// O01: the EVM opcode tables (zkevm/zkevm_opcodes.hpp) against the byte values of the EVM specification (Cancun).
#include <nil/blueprint/zkevm/zkevm_opcodes.hpp>

#include <vh.hpp>

#include <map>
#include <csignal>
#include <fcntl.h>
#include <sys/wait.h>

namespace {
    using namespace nil::blueprint;

    std::map<unsigned, std::string> evm() {
        std::map<unsigned, std::string> m = {
            {0x00, "STOP"}, {0x01, "ADD"}, {0x02, "MUL"}, {0x03, "SUB"}, {0x04, "DIV"}, {0x05, "SDIV"}, {0x06, "MOD"}, {0x07, "SMOD"},
            {0x08, "ADDMOD"}, {0x09, "MULMOD"}, {0x0a, "EXP"}, {0x0b, "SIGNEXTEND"}, {0x10, "LT"}, {0x11, "GT"}, {0x12, "SLT"},
            {0x13, "SGT"}, {0x14, "EQ"}, {0x15, "ISZERO"}, {0x16, "AND"}, {0x17, "OR"}, {0x18, "XOR"}, {0x19, "NOT"}, {0x1a, "BYTE"},
            {0x1b, "SHL"}, {0x1c, "SHR"}, {0x1d, "SAR"}, {0x20, "KECCAK256"}, {0x30, "ADDRESS"}, {0x31, "BALANCE"}, {0x32, "ORIGIN"},
            {0x33, "CALLER"}, {0x34, "CALLVALUE"}, {0x35, "CALLDATALOAD"}, {0x36, "CALLDATASIZE"}, {0x37, "CALLDATACOPY"},
            {0x38, "CODESIZE"}, {0x39, "CODECOPY"}, {0x3a, "GASPRICE"}, {0x3b, "EXTCODESIZE"}, {0x3c, "EXTCODECOPY"},
            {0x3d, "RETURNDATASIZE"}, {0x3e, "RETURNDATACOPY"}, {0x3f, "EXTCODEHASH"}, {0x40, "BLOCKHASH"}, {0x41, "COINBASE"},
            {0x42, "TIMESTAMP"}, {0x43, "NUMBER"}, {0x44, "PREVRANDAO"}, {0x45, "GASLIMIT"}, {0x46, "CHAINID"}, {0x47, "SELFBALANCE"},
            {0x48, "BASEFEE"}, {0x49, "BLOBHASH"}, {0x4a, "BLOBBASEFEE"}, {0x50, "POP"}, {0x51, "MLOAD"}, {0x52, "MSTORE"},
            {0x53, "MSTORE8"}, {0x54, "SLOAD"}, {0x55, "SSTORE"}, {0x56, "JUMP"}, {0x57, "JUMPI"}, {0x58, "PC"}, {0x59, "MSIZE"},
            {0x5a, "GAS"}, {0x5b, "JUMPDEST"}, {0x5c, "TLOAD"}, {0x5d, "TSTORE"}, {0x5e, "MCOPY"}, {0xf0, "CREATE"}, {0xf1, "CALL"},
            {0xf2, "CALLCODE"}, {0xf3, "RETURN"}, {0xf4, "DELEGATECALL"}, {0xf5, "CREATE2"}, {0xfa, "STATICCALL"}, {0xfd, "REVERT"},
            {0xfe, "INVALID"}, {0xff, "SELFDESTRUCT"}};
        for (unsigned k = 0; k <= 32; k++) m[0x5f + k] = "PUSH" + std::to_string(k);
        for (unsigned k = 1; k <= 16; k++) {
            m[0x7f + k] = "DUP" + std::to_string(k);
            m[0x8f + k] = "SWAP" + std::to_string(k);
        }
        for (unsigned k = 0; k <= 4; k++) m[0xa0 + k] = "LOG" + std::to_string(k);
        return m;
    }

    // decoding a byte in a child process: refusal may be an assertion failure or an exception
    bool decodes(std::size_t byte) {
        pid_t pid = ::fork();
        if (pid == 0) {
            ::signal(SIGABRT, SIG_DFL);
            ::signal(SIGSEGV, SIG_DFL);
            int null = ::open("/dev/null", O_WRONLY);
            ::dup2(null, 2);
            try {
                (void)opcodes_info::instance().get_opcode_from_value(byte);
            } catch (...) {
                ::_exit(3);
            }
            ::_exit(0);
        }
        int status = 0;
        ::waitpid(pid, &status, 0);
        return WIFEXITED(status) && WEXITSTATUS(status) == 0;
    }

    void o01() {
        vh::cfg().bounds = "all 256 byte values (and the 64 values above them), every opcode, every ordered pair of opcodes";
        auto spec = evm();
        const auto &info = opcodes_info::instance();
        std::vector<zkevm_opcode> ops;
        // which bytes decode at all
        for (std::size_t b = 0; b < 256 + 64; b++) {
            VH_CASE("byte " << b);
            bool defined = spec.count(b);
            bool got = decodes(b);
            VH_CHECK(got == defined, defined ? "undecoded" : "decoded", (defined ? "the byte of " + spec[b] + " does not decode" : "an undefined byte decodes"));
            vh::count_states();
            vh::count_transitions();
        }
        for (auto &[byte, name] : spec) {
            VH_CASE("opcode " << name << " byte " << byte);
            zkevm_opcode op = info.get_opcode_from_value(byte);
            VH_CHECK(opcode_to_string(op) == name, "name", "the byte decodes to " << opcode_to_string(op));
            std::size_t back = info.get_opcode_value(op);
            VH_CHECK(back == byte, "value", "encodes to " << back);
            std::ostringstream os;
            os << op;
            VH_CHECK(os.str() == name, "print", "prints as " << os.str());
            ops.push_back(op);
            vh::count_transitions(4);
            vh::count_traces();
            vh::sample(name + " <-> byte " + std::to_string(byte));
        }
        VH_CHECK(info.get_opcodes_amount() == spec.size(), "amount", "amount of opcodes is " << info.get_opcodes_amount() << " instead of " << spec.size());
        for (std::size_t i = 0; i < ops.size(); i++)
            for (std::size_t j = 0; j < ops.size(); j++) {
                if (i == j) continue;
                VH_CASE("opcodes " << opcode_to_string(ops[i]) << " and " << opcode_to_string(ops[j]));
                VH_CHECK(ops[i] != ops[j], "same", "two bytes decode to the same opcode");
                VH_CHECK(info.get_opcode_value(ops[i]) != info.get_opcode_value(ops[j]), "same-byte", "two opcodes have the same byte");
                vh::count_transitions();
            }
        VH_CHECK(&opcodes_info::instance() == &info, "instance", "the table is not shared");
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"O01", o01}});
}
