import os,shutil,subprocess,sys
L='lib/src/pbtools.c'
S=open('/repo/'+L).read()
R={}
def ref(name,*edits):
    R[name]=edits
ref('varint_for','''    value = 0;
    offset = 0;

    do {
        byte = decoder_get(self_p);
        value |= (((uint64_t)byte & 0x7f) << offset);
        offset += 7;
    } while ((offset < 64) && (byte & 0x80));

    if (byte & 0x80) {
        decoder_abort(self_p, PBTOOLS_VARINT_OVERFLOW);
        value = 0;
    }

    return (value);''','''    value = 0;

    for (offset = 0; offset < 64; offset += 7) {
        byte = decoder_get(self_p);
        value |= (((uint64_t)byte & 0x7f) << offset);

        if ((byte & 0x80) == 0) {
            return (value);
        }
    }

    decoder_abort(self_p, PBTOOLS_VARINT_OVERFLOW);

    return (0);''')
ref('wvarint_while','''    do {
        buf[pos++] = (uint8_t)(value | 0x80);
        value >>= 7;
    } while (value > 0);

    buf[pos - 1] &= 0x7f;
    encoder_write(self_p, &buf[0], pos);''','''    while (value >= 0x80) {
        buf[pos++] = (uint8_t)((value & 0x7f) | 0x80);
        value >>= 7;
    }

    buf[pos++] = (uint8_t)value;
    encoder_write(self_p, &buf[0], pos);''')
ref('w32_loop','''    buf[0] = (uint8_t)(value & 0xff);
    buf[1] = (uint8_t)((value >> 8) & 0xff);
    buf[2] = (uint8_t)((value >> 16) & 0xff);
    buf[3] = (uint8_t)((value >> 24) & 0xff);
    encoder_write(self_p, &buf[0], 4);''','''    int i;

    for (i = 0; i < 4; i++) {
        buf[i] = (uint8_t)((value >> (8 * i)) & 0xff);
    }

    encoder_write(self_p, &buf[0], sizeof(buf));''')
ref('heap_early','''    left = (self_p->size - self_p->pos);

    if ((left >= 0) && (size <= (size_t)left)) {
        addr = (uintptr_t)&self_p->buf_p[self_p->pos];
        rest = (addr & (alignment - 1));

        if (rest == 0) {
            self_p->pos += (int)size;
        } else {
            pad = (alignment - rest);
            size += pad;

            if (size <= (size_t)left) {
                addr += pad;
                self_p->pos += (int)size;
            } else {
                addr = (uintptr_t)NULL;
            }
        }
    } else {
        addr = (uintptr_t)NULL;
    }

    return ((void *)addr);''','''    left = (self_p->size - self_p->pos);

    if (left < 0) {
        return (NULL);
    }

    addr = (uintptr_t)&self_p->buf_p[self_p->pos];
    rest = (addr & (alignment - 1));
    pad = (rest == 0) ? 0 : (alignment - rest);

    if ((pad > (size_t)left) || (size > (size_t)left - pad)) {
        return (NULL);
    }

    self_p->pos += (int)(size + pad);

    return ((void *)(addr + pad));''')
ref('heap_helper','''static void *heap_alloc(struct pbtools_heap_t *self_p,''','''static int heap_left(const struct pbtools_heap_t *self_p)
{
    return (self_p->size - self_p->pos);
}

static void *heap_alloc(struct pbtools_heap_t *self_p,''','''    left = (self_p->size - self_p->pos);

    if ((left''','''    left = heap_left(self_p);

    if ((left''')
ref('alignup','''        rest = (addr & (alignment - 1));
''','''        rest = (addr % alignment);
''')
ref('sint_xor','''    if (value & 0x1) {
        value >>= 1;
        value = ~value;
    } else {
        value >>= 1;
    }

    return ((int32_t)value);''','''    return ((int32_t)((value >> 1) ^ (~(value & 1) + 1)));''','''    if (value & 0x1) {
        value >>= 1;
        value = ~value;
    } else {
        value >>= 1;
    }

    return ((int64_t)value);''','''    return ((int64_t)((value >> 1) ^ (~(value & 1) + 1)));''')
ref('sintenc_xor','''    if (value < 0) {
        data = ~((uint32_t)value << 1);
    } else {
        data = ((uint32_t)value << 1);
    }
''','''    data = (((uint32_t)value << 1) ^ (uint32_t)(value >> 31));
''','''    if (value < 0) {
        data = ~((uint64_t)value << 1);
    } else {
        data = ((uint64_t)value << 1);
    }
''','''    data = (((uint64_t)value << 1) ^ (uint64_t)(value >> 63));
''')
ref('switch_if','''    switch (wire_type) {

    case PBTOOLS_WIRE_TYPE_VARINT:
        (void)decoder_read_varint(decoder_p);
        self_p->length++;
        break;

    case PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED:
        size = (int)decoder_read_length_delimited(decoder_p, wire_type);
        decoder_init_slice(&decoder, decoder_p, size);

        while (pbtools_decoder_available(&decoder)) {
            (void)decoder_read_varint(&decoder);
            self_p->length++;
        }

        decoder_seek(decoder_p, decoder_get_result(&decoder));
        break;

    default:
        decoder_abort(decoder_p, PBTOOLS_BAD_WIRE_TYPE);
        break;
    }''','''    if (wire_type == PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED) {
        int count = 0;
        size = (int)decoder_read_length_delimited(decoder_p, wire_type);
        decoder_init_slice(&decoder, decoder_p, size);

        for (; pbtools_decoder_available(&decoder); count++) {
            (void)decoder_read_varint(&decoder);
        }

        self_p->length += count;
        decoder_seek(decoder_p, decoder_get_result(&decoder));
    } else if (wire_type == PBTOOLS_WIRE_TYPE_VARINT) {
        self_p->length++;
        (void)decoder_read_varint(decoder_p);
    } else {
        decoder_abort(decoder_p, PBTOOLS_BAD_WIRE_TYPE);
    }''')
ref('rep_down','''    for (i = repeated_p->length - 1; i >= 0; i--) {
        item_write(self_p, i, repeated_p->items_p);
    }
''','''    i = repeated_p->length;

    while (i > 0) {
        i--;
        item_write(self_p, i, repeated_p->items_p);
    }
''')
ref('rep_up','''    for (i = repeated_p->length - 1; i >= 0; i--) {
        item_write(self_p, i, repeated_p->items_p);
    }
''','''    for (i = 0; i < repeated_p->length; i++) {
        item_write(self_p, repeated_p->length - 1 - i, repeated_p->items_p);
    }
''')
ref('encw_flip','''    if ((self_p->pos + 1) >= size) {
        self_p->pos -= size;
        memcpy(&self_p->buf_p[self_p->pos + 1], buf_p, (size_t)size);
    } else {
        encoder_abort(self_p, PBTOOLS_ENCODE_BUFFER_FULL);
    }''','''    int pos;

    pos = self_p->pos - size;

    if (pos < -1) {
        encoder_abort(self_p, PBTOOLS_ENCODE_BUFFER_FULL);

        return;
    }

    memcpy(&self_p->buf_p[pos + 1], buf_p, (size_t)size);
    self_p->pos = pos;''')
ref('memmove_guard','''        memmove(self_p->buf_p,
                &self_p->buf_p[self_p->pos + 1],
                (size_t)length);''','''        if (self_p->pos >= 0) {
            memmove(self_p->buf_p,
                    &self_p->buf_p[self_p->pos + 1],
                    (size_t)length);
        }''')
ref('dec_read_loop','''        memcpy(buf_p, &self_p->buf_p[self_p->pos], size);
        self_p->pos += (int)size;''','''        size_t i;

        for (i = 0; i < size; i++) {
            buf_p[i] = self_p->buf_p[self_p->pos];
            self_p->pos++;
        }''')
ref('dec_read_left','''    if ((self_p->size - self_p->pos) >= (int)size) {
        memcpy''','''    if (decoder_left(self_p) >= (int)size) {
        memcpy''')
ref('seek','''    } else if (((unsigned int)self_p->pos + (unsigned int)offset) > INT_MAX) {
        decoder_abort(self_p, PBTOOLS_SEEK_OVERFLOW);
    } else {
        self_p->pos += offset;

        if (self_p->pos > self_p->size) {
            decoder_abort(self_p, PBTOOLS_OUT_OF_DATA);
        }
    }''','''    } else if (offset > INT_MAX - self_p->pos) {
        decoder_abort(self_p, PBTOOLS_SEEK_OVERFLOW);
    } else if (offset > decoder_left(self_p)) {
        decoder_abort(self_p, PBTOOLS_OUT_OF_DATA);
    } else {
        self_p->pos += offset;
    }''')
ref('get_flip','''    uint8_t value;

    if (pbtools_decoder_available(self_p)) {
        value = self_p->buf_p[self_p->pos];
        self_p->pos++;
    } else {
        decoder_abort(self_p, PBTOOLS_OUT_OF_DATA);
        value = 0;
    }

    return (value);''','''    if (!pbtools_decoder_available(self_p)) {
        decoder_abort(self_p, PBTOOLS_OUT_OF_DATA);

        return (0);
    }

    return (self_p->buf_p[self_p->pos++]);''')
ref('skip_width','''    case PBTOOLS_WIRE_TYPE_64_BIT:
        decoder_seek(self_p, 8);
        break;

    case PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED:
        value = decoder_read_length_delimited(self_p, wire_type);
        decoder_seek(self_p, (int)(int64_t)value);
        break;

    case PBTOOLS_WIRE_TYPE_32_BIT:
        decoder_seek(self_p, 4);
        break;
''','''    case PBTOOLS_WIRE_TYPE_64_BIT:
    case PBTOOLS_WIRE_TYPE_32_BIT:
        decoder_seek(self_p, wire_type == PBTOOLS_WIRE_TYPE_64_BIT ? 8 : 4);
        break;

    case PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED:
        value = decoder_read_length_delimited(self_p, wire_type);
        decoder_seek(self_p, (int)value);
        break;
''')
ref('size_shift','''        if ((size % 4) != 0) {
            decoder_abort(decoder_p, PBTOOLS_OUT_OF_DATA);
            break;
        }

        self_p->length += (size / 4);
        decoder_seek(decoder_p, size);''','''        if ((size & 3) == 0) {
            self_p->length += (size >> 2);
            decoder_seek(decoder_p, size);
        } else {
            decoder_abort(decoder_p, PBTOOLS_OUT_OF_DATA);
        }
''')
ref('read_repeated','''    index = 0;

    /* Accept both packed and not packed. */
    if (wire_type == item_wire_type) {
        item_read(self_p, items_p, index);
        index++;
    } else if (wire_type == PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED) {''','''    index = 0;

    if (wire_type == item_wire_type) {
        item_read(self_p, items_p, 0);

        return (1);
    }

    if (wire_type == PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED) {''')
ref('strlen_zero','''    length = strlen(value_p);

    if (length > 0) {
        encoder_write(self_p, (uint8_t *)value_p, (int)length);
        encoder_write_tagged_varint(self_p,''','''    length = strlen(value_p);

    if (length != 0) {
        encoder_write(self_p, (uint8_t *)value_p, (int)length);
        encoder_write_tagged_varint_always(self_p,''')
ref('initdecode_inv','''    if (self_p->length == 0) {
        decoder_init_slice(&self_p->decoder, decoder_p, decoder_left(decoder_p));
        self_p->wire_type = wire_type;
    }''','''    if (self_p->length > 0) {
        return;
    }

    self_p->wire_type = wire_type;
    decoder_init_slice(&self_p->decoder, decoder_p, decoder_p->size - decoder_p->pos);''')
ref('enc_rep_pos','''    pos = self_p->pos;

    for (i = repeated_p->length - 1; i >= 0; i--) {
        item_write(self_p, i, repeated_p->items_p);
    }

    encoder_write_tagged_varint(self_p,
                                field_number,
                                PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED,
                                (uint64_t)(pos - self_p->pos));''','''    pos = self_p->pos;

    for (i = repeated_p->length; i-- > 0;) {
        item_write(self_p, i, repeated_p->items_p);
    }

    encoder_write_length_delimited(self_p,
                                   field_number,
                                   (uint64_t)(pos - self_p->pos));''')
ref('read32','''    encoder_write(self_p, &buf[0], 8);''','''    encoder_write(self_p, buf, (int)sizeof(buf));''')
ref('avail','''    return (self_p->pos < self_p->size);''','''    return (decoder_left(self_p) > 0);''')

LOOP='''    index = read_repeated(&repeated_info_p->decoder,
                          repeated_info_p->wire_type,
                          repeated_p->items_p,
                          0);

    while (are_more_items_to_decode(repeated_info_p, index)) {
        tag = pbtools_decoder_read_tag(&repeated_info_p->decoder, &wire_type);

        if (tag == repeated_info_p->tag) {
            index += read_repeated(&repeated_info_p->decoder,
                                   wire_type,
                                   repeated_p->items_p,
                                   index);
        } else {
            pbtools_decoder_skip_field(&repeated_info_p->decoder, wire_type);
        }
    }

    res = decoder_get_result(&repeated_info_p->decoder);
'''
ref('p2_alias',LOOP,'''    struct pbtools_decoder_t *decoder_p = &repeated_info_p->decoder;

    index = read_repeated(decoder_p,
                          repeated_info_p->wire_type,
                          repeated_p->items_p,
                          0);

    while (are_more_items_to_decode(repeated_info_p, index)) {
        tag = pbtools_decoder_read_tag(decoder_p, &wire_type);

        if (tag != repeated_info_p->tag) {
            pbtools_decoder_skip_field(decoder_p, wire_type);
            continue;
        }

        index += read_repeated(decoder_p,
                               wire_type,
                               repeated_p->items_p,
                               index);
    }

    res = decoder_get_result(decoder_p);
''')
ref('p2_one_loop',LOOP,'''    index = 0;
    tag = repeated_info_p->tag;
    wire_type = repeated_info_p->wire_type;

    while (true) {
        if (tag == repeated_info_p->tag) {
            index += read_repeated(&repeated_info_p->decoder,
                                   wire_type,
                                   repeated_p->items_p,
                                   index);
        } else {
            pbtools_decoder_skip_field(&repeated_info_p->decoder, wire_type);
        }

        if (!are_more_items_to_decode(repeated_info_p, index)) {
            break;
        }

        tag = pbtools_decoder_read_tag(&repeated_info_p->decoder, &wire_type);
    }

    res = decoder_get_result(&repeated_info_p->decoder);
''')
ref('p2_more','''    return (pbtools_decoder_available(&repeated_info_p->decoder)
            && (pos < repeated_info_p->length));''','''    if (pos >= repeated_info_p->length) {
        return (false);
    }

    return (pbtools_decoder_available(&repeated_info_p->decoder));''')
ref('p2_for','''        while (pbtools_decoder_available(&decoder)) {
            item_read(&decoder, items_p, index);
            index++;
        }
''','''        for (index = 0; pbtools_decoder_available(&decoder); index++) {
            item_read(&decoder, items_p, index);
        }
''')
ref('p2_early','''    index = 0;

    /* Accept both packed and not packed. */
    if (wire_type == item_wire_type) {
        item_read(self_p, items_p, index);
        index++;
    } else if''','''    index = 0;

    /* Accept both packed and not packed. */
    if (wire_type == item_wire_type) {
        item_read(self_p, items_p, 0);

        return (1);
    }

    if''')
ref('p2_item_index','''    message_decode_inner(&decoder, *item_pp);
    decoder_seek(&repeated_info_p->decoder, decoder_get_result(&decoder));
    *item_pp += item_size;
    (*length_p)++;''','''    message_decode_inner(&decoder, (*item_pp) + (size_t)(*length_p) * item_size);
    decoder_seek(&repeated_info_p->decoder, decoder_get_result(&decoder));
    *length_p += 1;''')
ref('p2_string','''    pbtools_decoder_read_string(self_p, wire_type, &items_pp[index]);

    return (1);''','''    char *item_p = items_pp[index];

    pbtools_decoder_read_string(self_p, wire_type, &item_p);
    items_pp[index] = item_p;

    return (1);''')
ref('p2_no_memory','''    if (repeated_p->items_p == NULL) {
        return;
    }

    repeated_p->length = repeated_info_p->length;
    index = read''','''    if (repeated_p->items_p != NULL) {
        repeated_p->length = repeated_info_p->length;
    } else {
        return;
    }

    index = read''')

def apply(name):
    d=f'/tmp/rf/{name}'; shutil.rmtree(d,ignore_errors=True)
    shutil.copytree('/repo/lib',d+'/lib',ignore=shutil.ignore_patterns('build','*.o','*.a'))
    shutil.copytree('/repo/pbtools',d+'/pbtools',ignore=shutil.ignore_patterns('__pycache__'))
    s=S; e=R[name]
    for o,n in zip(e[::2],e[1::2]):
        assert s.count(o)>=1,(name,o)
        s=s.replace(o,n,1)
    open(d+'/'+L,'w').write(s)
    return d
if __name__=='__main__':
    names=sys.argv[1:] or list(R)
    for n in names:
        d=apply(n)
        print('==',n,flush=True)
        subprocess.run(['gcc','-fsyntax-only','-Wall','-I'+d+'/lib/include',d+'/'+L])
        subprocess.run(['python3',os.path.join(os.path.dirname(os.path.abspath(__file__)),'all_c.py'),d],env=dict(os.environ,N='4'))
        shutil.rmtree(d)
