
/* ---- appended by /verif (goto-cc build only; see DESIGN.md "Extraction") ----
 * Same values, written with pointer arithmetic instead of integer casts, so that
 * the verifier's simplifier keeps track of which object a tagged pointer names. */
#undef OBJPTR
#undef OBJID
#undef KOS_CONST_ID
#undef KOS_BADPTR
#undef IS_BAD_PTR
#undef IS_SMALL_INT
#define OBJPTR(tag, obj_id)  ((KOS_##tag *)(void *)((char *)(obj_id) - 1))
#define OBJID(tag, ptr)      ((KOS_OBJ_ID)(void *)((char *)(ptr) + 1))
#define KOS_CONST_ID(obj)    ((KOS_OBJ_ID)(void *)((char *)&(obj).object + 1))
#define KOS_BADPTR           ((KOS_OBJ_ID)(void *)((char *)0 + 1))
#define IS_BAD_PTR(obj_id)   (__CPROVER_POINTER_OFFSET((void *)(obj_id)) == 1 && __CPROVER_same_object((void *)(obj_id), (void *)0))
#define IS_SMALL_INT(obj_id) (!(__CPROVER_POINTER_OFFSET((void *)(obj_id)) & 1))
