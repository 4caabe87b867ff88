# more behaviour-preserving edits of the hardware cells
K, S = "hw/kernel/", "hw/stream/"
SETS["i"] = [
    (K + "sign/Sign.sv", "module Sign # (\n    parameter DEP=3\n)", "`default_nettype none\n`define STEP 1\nmodule Sign # (\n    parameter int unsigned DEP=3\n)"),
    (K + "sign/Sign.sv", "cnt <= cnt + 1;", "cnt <= cnt + `STEP;"),
    (K + "jkff/JKFF.sv", "module JKFF (", "`ifndef JKFF_SV\n`define JKFF_SV\nmodule JKFF ("),
    (K + "jkff/JKFF.sv", "endmodule", "endmodule : JKFF\n`endif"),
    (K + "jkff/JKFF.sv", """            case ({J,K})
                2'b00: out <= out;
                2'b10: out <= 1'b1;
                2'b01: out <= 1'b0;
                2'b11: out <= ~out;
                default : out <= 0;
            endcase
""", """            case (op_t'({J, K}))
                HOLD: out <= out;
                SET: out <= 1'b1;
                CLEAR: out <= 1'b0;
                TOGGLE: out <= ~out;
            endcase
"""),
    (K + "jkff/JKFF.sv", "    always_ff @(posedge clk or negedge rst_n) begin : proc_out", "    typedef enum logic [1:0] {HOLD = 2'b00, CLEAR, SET, TOGGLE} op_t;\n\n    (* keep = \"true\" *)\n    always_ff @(posedge clk or negedge rst_n) begin : proc_out"),
    (K + "div/CORDIV_kernel.sv", "    logic [DEP-1:0] sr;", "    logic [0:DEP-1] sr;"),
    (K + "abs/Abs.sv", "    assign abs = value ^ sign;\n", """    function automatic logic magnitude(input logic v, s);
        logic r;
        r = v;
        if (s) return ~v;
        return r;
    endfunction

    assign abs = magnitude(value, sign);
"""),
    (S + "shuffle/Bi2Uni.sv", """            diff_acc <= (~in & ~|diff_acc) ? diff_acc : diff_acc + pc - 1 - out;
""", """            automatic logic signed [DEP+1:0] sum;
            sum = $signed({2'b00, diff_acc}) + (in ? 1 : -1) - (out ? 1 : 0);
            if (sum < 0) sum = 0;
            diff_acc <= sum[DEP-1:0];
"""),
    (S + "shuffle/SkewedSync.sv", """    logic [DEP-1:0] cnt;
""", """    typedef logic [DEP-1:0] cnt_t;
    localparam cnt_t TOP = {DEP{1'b1}};
    cnt_t cnt;
"""),
    (S + "shuffle/SkewedSync.sv", "    assign cntFull = &cnt;\n", "    assign cntFull = cnt == TOP;\n"),
    (S + "shuffle_int/SkewedSyncInt.sv", """    assign sum_clip = sum_overflow ? {DEP{1'b1}} : sum[DEP-1:0];
""", """    localparam int MAXV = 2 ** DEP - 1;
    assign sum_clip = sum > MAXV ? MAXV : sum;
"""),
    (K + "div/GDIV_B.sv", """    logic [2:0] xnorgate;
    logic [1:0] andgate;
""", """    wire [2:0] xnorgate;
    wire [0:1] andgate;
"""),
    (K + "sqrt/GSQRT_U.sv", "    assign cntFull = &cnt;\n", "    assign cntFull = (cnt >= 2**DEP - 1);\n"),
    (K + "sqrt/BISQRT_S_IS_U.sv", "    .randNum(randNum),\n", "    .randNum,\n"),
]
