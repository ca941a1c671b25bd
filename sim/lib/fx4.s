# Fixture: hand written functions with overlapping, nested, aliased and zero-sized symbols.
        .text
        .globl  ov_big
        .type   ov_big, @function
ov_big:
        .skip   32, 0x90
        .globl  ov_inner
        .type   ov_inner, @function
ov_inner:
        .skip   8, 0x90
        .size   ov_inner, .-ov_inner
        .skip   16, 0x90
        .globl  ov_tail
        .type   ov_tail, @function
ov_tail:
        .skip   8, 0x90
        .size   ov_big, .-ov_big
        .skip   24, 0x90
        .size   ov_tail, .-ov_tail
        .skip   16, 0xcc
        .globl  al_first
        .globl  al_second
        .type   al_first, @function
        .type   al_second, @function
al_first:
al_second:
        .skip   20, 0x90
        .size   al_first, .-al_first
        .size   al_second, .-al_second
        .globl  no_size
        .type   no_size, @function
no_size:
        .skip   12, 0x90
        .globl  an_object
        .type   an_object, @object
an_object:
        .skip   8, 0
        .size   an_object, .-an_object
        .globl  ov_chain1
        .type   ov_chain1, @function
ov_chain1:
        .skip   10, 0x90
        .globl  ov_chain2
        .type   ov_chain2, @function
ov_chain2:
        .skip   10, 0x90
        .size   ov_chain1, .-ov_chain1
        .globl  ov_chain3
        .type   ov_chain3, @function
ov_chain3:
        .skip   10, 0x90
        .size   ov_chain2, .-ov_chain2
        .skip   14, 0x90
        .size   ov_chain3, .-ov_chain3
        .section .note.GNU-stack,"",@progbits
