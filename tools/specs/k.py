SEEDS=[
dict(id='C10-plaintext-version', property='C10', imports=['lib/message'],
 edits=[('message/plaintext.go','''	if bytes[0] != plaintextContextIdentifier {''','''	if bytes[0]&plaintextContextIdentifier != plaintextContextIdentifier {''')],
 needs='a plaintext message whose first byte has other bits set too',
 breaks='It is accepted.',
 demo='''
func TestDemo(t *testing.T) {
	if _, err := message.NewPlaintextFromBytes([]byte{0xC1, 7}); err == nil {
		t.Fatal("accepted")
	}
}
'''),
]
