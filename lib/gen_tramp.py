# writes tramp.S: call a0 with magic values in every callee-saved register and
# report which ones (and sp) come back changed
fs = [f"fs{i}" for i in range(12)]
ss = [f"s{i}" for i in range(12)]
o = [".text", ".globl vf_checked_call", ".type vf_checked_call,@function", "vf_checked_call:",
     "addi sp,sp,-240", "sd ra,0(sp)"]
for i, r in enumerate(ss): o.append(f"sd {r},{8+8*i}(sp)")
for i, r in enumerate(fs): o.append(f"fsd {r},{112+8*i}(sp)")
o += ["sd gp,208(sp)", "sd tp,216(sp)", "la t0,vf_saved_sp", "ld t1,0(t0)", "sd t1,224(sp)", "sd sp,0(t0)", "mv t2,a0"]
for i, r in enumerate(ss): o.append(f"li {r},{0x1234567800000000 + 0x1111*(i+1)}")
for i, r in enumerate(fs): o += [f"li t0,{0x4012345600000000 + 0x1111*(i+1)}", f"fmv.d.x {r},t0"]
# poison caller-saved registers so that nothing relies on leftovers
for r in ["a0","a1","a2","a3","a4","a5","a6","a7","t3","t4","t5","t6"]:
    o.append(f"li {r},-0x5a5a5a5a5a5a5a5b")
for i in range(12): o.append(f"fmv.d.x ft{i},a1")
for i in range(8): o.append(f"fmv.d.x fa{i},a1")
o += ["jalr t2", "la t0,vf_saved_sp", "ld t1,0(t0)", "li a0,0", "beq t1,sp,1f", "li t2,1<<24", "or a0,a0,t2", "1:", "mv sp,t1"]
k = 0
for i, r in enumerate(ss):
    o += [f"li t0,{0x1234567800000000 + 0x1111*(i+1)}", f"beq t0,{r},1f", f"li t2,1<<{k}", "or a0,a0,t2", "1:"]; k += 1
for i, r in enumerate(fs):
    o += [f"li t0,{0x4012345600000000 + 0x1111*(i+1)}", f"fmv.x.d t1,{r}", "beq t0,t1,1f", f"li t2,1<<{k}", "or a0,a0,t2", "1:"]; k += 1
o += ["ld t1,216(sp)", "beq t1,tp,1f", "li t2,1<<25", "or a0,a0,t2", "1:",
      "ld gp,208(sp)", "ld tp,216(sp)", "ld t1,224(sp)", "la t0,vf_saved_sp", "sd t1,0(t0)", "ld ra,0(sp)"]
for i, r in enumerate(ss): o.append(f"ld {r},{8+8*i}(sp)")
for i, r in enumerate(fs): o.append(f"fld {r},{112+8*i}(sp)")
o += ["addi sp,sp,240", "ret", ".bss", ".align 3", "vf_saved_sp: .zero 8", '.section .note.GNU-stack,"",@progbits']
print("\n".join(o))
