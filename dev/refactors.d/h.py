# behaviour-preserving edits of the hardware cells
K, S = "hw/kernel/", "hw/stream/"
SETS["h"] = [
    (K + "sign/Sign.sv", """    always_ff @(posedge clk or negedge rst_n) begin : proc_cnt
        if(~rst_n) begin
            cnt <= {1'b1, {{DEP-1}{1'b0}}};
        end else begin
            if(value & ~cntFull) begin
                cnt <= cnt + 1;
            end else if(~value & ~cntEmpty) begin
                cnt <= cnt - 1;
            end else begin
                cnt <= cnt;
            end
        end
    end
""", """    localparam logic [DEP-1:0] HALF = 1 << (DEP - 1);
    logic [DEP-1:0] cnt_next;

    always_comb begin
        cnt_next = cnt;
        unique case (value)
            1'b1: if (!cntFull) cnt_next = cnt + DEP'(1);
            1'b0: if (!cntEmpty) cnt_next -= 1'b1;
        endcase
    end

    always_ff @(posedge clk, negedge rst_n)
        if (!rst_n) cnt <= HALF;
        else cnt <= cnt_next;
"""),
    (K + "abs/Abs.sv", """            if(value & ~cntFull) begin
                cnt <= cnt + 1;
            end else if(~value & ~cntEmpty) begin
                cnt <= cnt - 1;
            end else begin
                cnt <= cnt;
            end
""", """            case ({value, cntFull, cntEmpty})
                3'b100, 3'b101: cnt <= cnt + 1'b1;
                3'b000, 3'b010: cnt <= cnt + {DEP{1'b1}};
                default: ;
            endcase
"""),
    (K + "abs/Abs.sv", "    assign abs = value ^ sign;\n", "    wire keep = cnt[DEP-1];\n    assign abs = keep ? value : !value;\n"),
    (K + "jkff/JKFF.sv", """            case ({J,K})
                2'b00: out <= out;
                2'b10: out <= 1'b1;
                2'b01: out <= 1'b0;
                2'b11: out <= ~out;
                default : out <= 0;
            endcase
""", """            out <= (J & ~out) | (~K & out);
"""),
    (K + "div/CORDIV_kernel.sv", """            for (int i = 0; i < DEP; i++) begin
                sr[i] <= i%2;
            end
""", """            integer k;
            for (k = DEP - 1; k >= 0; k = k - 1)
                sr[k] <= k[0];
"""),
    (K + "div/CORDIV_kernel.sv", """            sr[DEP-1] <= quotient;
            for (int i = 0; i < DEP-1; i++) begin
                sr[i] <= sr[i+1];
            end
""", """            sr <= (sr >> 1) | (quotient << (DEP - 1));
"""),
    (K + "div/CORDIV_kernel.sv", """    logic [1:0] mux;
    logic sel;
""", ""),
    (K + "div/CORDIV_kernel.sv", """    assign mux[0] = sr[randNum];
    assign mux[1] = dividend;
    assign sel = divisor;

    assign quotient = sel ? mux[1] : mux[0];
""", """    always_comb
        if (divisor) quotient = dividend;
        else quotient = sr[randNum];
"""),
    (K + "div/GDIV_U.sv", """    always_ff @(posedge clk or negedge rst_n) begin : proc_cnt
        if(~rst_n) begin
            cnt <= {1'b1, {{DEP-1}{1'b0}}};
        end else begin
            if(inc & ~dec & ~cntFull) begin
                cnt <= cnt + 1;
            end else if(~inc & dec & ~cntEmpty) begin
                cnt <= cnt - 1;
            end else begin
                cnt <= cnt;
            end
        end
    end
""", """    GDIVCounter #(.WIDTH(DEP)) U_cnt (.clk, .rst_n, .up(inc & ~dec & ~cntFull), .down(~inc & dec & ~cntEmpty), .value(cnt));
"""),
    (K + "div/GDIV_U.sv", "module GDIV_U # (", """module GDIVCounter #(parameter int WIDTH = 4) (
    input wire clk,
    input wire rst_n,
    input wire up, down,
    output reg [WIDTH-1:0] value
);
    always @(posedge clk or negedge rst_n)
        if (rst_n == 1'b0) value <= {1'b1, {(WIDTH-1){1'b0}}};
        else value <= value + up - down;
endmodule

module GDIV_U # ("""),
    (K + "div/GDIV_B.sv", """    assign xnorgate[0] = ~(divisor ^ divisor_d);
    assign xnorgate[1] = ~(divisor ^ dividend);
    assign xnorgate[2] = ~(xnorgate[0] ^ ~quotient);
""", """    function automatic logic same(input logic a, input logic b);
        return a == b;
    endfunction

    assign xnorgate[0] = same(divisor, divisor_d);
    assign xnorgate[1] = same(divisor, dividend);
    assign xnorgate[2] = xnorgate[0] ^ quotient;
"""),
    (K + "div/CORDIV_kernel_IS_B.sv", """    assign dividend_regen_abs = dividend_regen_sign ? (0 - dividend_cnt) : dividend_cnt;
    assign dividend_regen = (dividend_regen_abs > randNum) ? 1 : 0;
""", """    assign dividend_regen_abs = dividend_regen_sign ? (~dividend_cnt + 1'b1) : dividend_cnt;
    assign dividend_regen = !(dividend_regen_abs <= randNum);
"""),
    (K + "div/CORDIV_kernel_IS_U.sv", "dividend_cnt <= dividend ? dividend_cnt + 1 : dividend_cnt - 1;", "dividend_cnt <= dividend_cnt + (dividend ? 1 : -1);"),
    (K + "div/ISCBDIV_B.sv", """    assign quotient = quotient_abs ^ dividend_sign ^ divisor_sign;
""", """    assign quotient = ^{quotient_abs, dividend_sign, divisor_sign};
"""),
    (K + "sqrt/GSQRT_B.sv", "    assign dec = ~(out ^ out_d1);\n", "    assign dec = out ~^ out_d1;\n"),
    (K + "sqrt/BISQRT_O_B.sv", """    always_ff @(posedge clk or negedge rst_n) begin : proc_sr
        if(~rst_n) begin
            for (int i = 0; i < DEP_SR; i++) begin
                sr[i] <= i%2;
            end
        end else begin
            sr[DEP_SR-1] <= out_inv;
            for (int i = 0; i < DEP_SR-1; i++) begin
                sr[i] <= sr[i+1];
            end
        end
    end
""", """    genvar g;
    generate
        for (g = 0; g < DEP_SR; g = g + 1) begin : stage
            always_ff @(posedge clk or negedge rst_n) begin
                if (~rst_n) sr[g] <= g % 2;
                else sr[g] <= (g == DEP_SR - 1) ? out_inv : sr[(g + 1) % DEP_SR];
            end
        end
    endgenerate
"""),
    (K + "sqrt/BISQRT_O_U.sv", "diff_acc <= (&diff_acc & pc[1]) ? diff_acc : diff_acc + pc - out;", "if (!(diff_acc == '1 && pc >= 2)) diff_acc <= diff_acc + pc - out;"),
    (K + "sqrt/BISQRT_S_JK_U.sv", """    JKFF U_JKFF(
        .clk(clk),
        .rst_n(rst_n),
        .J(Jport),
        .K(Kport),
        .out(JKout)
        );
""", """    JKFF U_JKFF(clk, rst_n, Jport, Kport, JKout);
"""),
    (S + "shuffle/Bi2Uni.sv", """            diff_acc <= (~in & ~|diff_acc) ? diff_acc : diff_acc + pc - 1 - out;
""", """            if (in)
                diff_acc <= diff_acc + (out ? 0 : 1);
            else if (diff_acc != 0)
                diff_acc <= diff_acc - (out ? 2 : 1);
"""),
    (S + "shuffle/SkewedSync.sv", """                cnt <= (in0 ? cntFull : cntEmpty) ? cnt : (cnt + (in0 ? 1 : -1));
""", """                if(in0) begin
                    cnt <= cntFull ? cnt : (cnt + 1);
                end else begin
                    cnt <= cntEmpty ? cnt : (cnt - 1);
                end
"""),
    (S + "shuffle/SkewedSync.sv", """    always_comb begin : proc_out0
        if (in_ne) begin
            if(in0) begin
                out0 <= cntFull ? 1 : 0;
            end else begin
                out0 <= cntEmpty ? 0 : 1;
            end
        end else begin
            out0 <= in0;
        end
    end
""", """    always @* begin : proc_out0
        out0 = in0;
        if (in_ne)
            out0 = in0 ? cntFull : ~cntEmpty;
    end
"""),
    (S + "shuffle/Uni2Bi.sv", "in_acc <= in_acc[0] + pc;", "in_acc <= {in_acc[0] | in, ~(in_acc[0] ^ in)};"),
    (S + "shuffle_int/SkewedSyncInt.sv", """    always_comb begin : proc_out0
        if (in1) begin
            out0 <= sum_clip;
        end else begin
            out0 <= 0;
        end
    end
""", """    assign out0 = sum_clip & {DEP{in1}};
"""),
]
