import java.io.IOException;
import java.nio.file.Files;
import java.nio.file.Path;
import java.nio.file.Paths;
import java.util.List;
import java.util.stream.Collectors;
import java.util.stream.Stream;

import jdk.internal.org.objectweb.asm.ClassReader;
import jdk.internal.org.objectweb.asm.ClassVisitor;
import jdk.internal.org.objectweb.asm.ClassWriter;
import jdk.internal.org.objectweb.asm.MethodVisitor;
import jdk.internal.org.objectweb.asm.Opcodes;

/** Copies class files; in the packages of the library and of generated code every access to a field or an array element
 *  and every call is preceded by a point of the simulated schedule. */
public final class Weaver
{
    public static void main(String[] a) throws IOException
    {
        final Path to = Paths.get(a[0]);
        for (int i = 1; i < a.length; i++)
        {
            final Path from = Paths.get(a[i]);
            final List<Path> files;
            try (Stream<Path> s = Files.walk(from))
            {
                files = s.filter(Files::isRegularFile).sorted().collect(Collectors.toList());
            }
            for (Path p : files)
            {
                final Path rel = from.relativize(p);
                final Path out = to.resolve(rel.toString());
                Files.createDirectories(out.getParent());
                byte[] b = Files.readAllBytes(p);
                if (p.toString().endsWith(".class") && rel.getNameCount() > 1)
                    b = weave(b);
                Files.write(out, b);
            }
        }
    }

    static byte[] weave(byte[] b)
    {
        final ClassReader r = new ClassReader(b);
        final ClassWriter w = new ClassWriter(r, 0);
        r.accept(new ClassVisitor(Opcodes.ASM8, w) {
            @Override
            public MethodVisitor visitMethod(int access, String name, String desc, String sig, String[] ex)
            {
                return new MethodVisitor(Opcodes.ASM8, super.visitMethod(access, name, desc, sig, ex)) {
                    void point()
                    {
                        super.visitMethodInsn(Opcodes.INVOKESTATIC, "ThrExtra", "point", "()V", false);
                    }

                    final boolean init = name.equals("<clinit>");

                    @Override
                    public void visitCode()
                    {
                        super.visitCode();
                        if (init)
                            super.visitMethodInsn(Opcodes.INVOKESTATIC, "ThrExtra", "enter", "()V", false);
                    }

                    @Override
                    public void visitFieldInsn(int op, String owner, String n, String d)
                    {
                        point();
                        super.visitFieldInsn(op, owner, n, d);
                    }

                    @Override
                    public void visitMethodInsn(int op, String owner, String n, String d, boolean itf)
                    {
                        if (op != Opcodes.INVOKESPECIAL)
                            point();
                        super.visitMethodInsn(op, owner, n, d, itf);
                    }

                    @Override
                    public void visitInsn(int op)
                    {
                        if (op >= Opcodes.IALOAD && op <= Opcodes.SALOAD || op >= Opcodes.IASTORE && op <= Opcodes.SASTORE)
                            point();
                        if (init && op == Opcodes.RETURN)
                            super.visitMethodInsn(Opcodes.INVOKESTATIC, "ThrExtra", "leave", "()V", false);
                        super.visitInsn(op);
                    }
                };
            }
        }, 0);
        return w.toByteArray();
    }

    private Weaver()
    {}
}
